// Contracts of the covariance ellipse (C34).
// VC-FLAGS: -I/usr/include/eigen3 -Decl_linear_algebra_LINEAR_ALGEBRA_SOPHUS_HPP_ -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_DEBUG -DEIGEN_MAX_ALIGN_BYTES=0
#include "vc.h"
#include <ecl_statistics/src/lib/covariance_ellipsoid.cpp>

// every symmetric positive definite matrix is R diag(p^2, q^2) R' with p >= q > 0 and a rotation R by less than a half turn
template <class S> struct Given { S p, q, c, s; ecl::linear_algebra::Matrix<S, 2, 2> m;
  Given(S excess, S minor, S t) : p(minor + excess), q(minor) {
    VC_REQUIRES(q > 0); if (!(excess == 0)) VC_REQUIRES(excess > 0);
    c = (1 - t * t) / (1 + t * t); s = 2 * t / (1 + t * t);
    m(0, 0) = p * p * c * c + q * q * s * s; m(1, 1) = p * p * s * s + q * q * c * c; m(0, 1) = m(1, 0) = (p * p - q * q) * c * s;
  } };
template <class S> static void axes(const Given<S> &g, ecl::CovarianceEllipsoid<S, 2> &e) {
  const ecl::linear_algebra::Matrix<S, 2, 2> &a = e.axes();
  VC_ENSURES("the lengths are the roots of the eigenvalues, in decreasing order", vc::real_eq(e.lengths()(0), g.p) & vc::real_eq(e.lengths()(1), g.q));
  VC_ENSURES("axes of length one", vc::real_eq(a(0, 0) * a(0, 0) + a(1, 0) * a(1, 0), 1) & vc::real_eq(a(0, 1) * a(0, 1) + a(1, 1) * a(1, 1), 1));
  VC_ENSURES("orthogonal axes", vc::real_eq(a(0, 0) * a(0, 1) + a(1, 0) * a(1, 1), 0));
  bool eigen = true;
  for (int k = 0; k < 2; ++k) { S l = k ? g.q * g.q : g.p * g.p; for (int i = 0; i < 2; ++i) eigen = eigen & vc::real_eq(g.m(i, 0) * a(0, k) + g.m(i, 1) * a(1, k), l * a(i, k)); }
  VC_ENSURES("the axes are eigenvectors", eigen);
  bool same = true;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) same = same & vc::real_eq(g.p * g.p * a(i, 0) * a(j, 0) + g.q * g.q * a(i, 1) * a(j, 1), g.m(i, j));
  VC_ENSURES("axes and lengths reproduce the matrix", same);
}
VC_CASES(C34_double, 2)
VC_PROOF(C34_double, "ecl::CovarianceEllipsoid<double, 2>::compute; ecl::CovarianceEllipsoid<double, 2>::CovarianceEllipsoid") {
  Given<double> g(vc::any_double("excess of the major"), vc::any_double("minor"), vc::any_double("tangent"));
  if (__vc_case()) { ecl::CovarianceEllipsoid<double, 2> e(g.m); axes(g, e); }
  else { ecl::CovarianceEllipsoid<double, 2> e; VC_ENSURES("the unit circle by default", (e.lengths()(0) == 1) & (e.lengths()(1) == 1) & (e.axes()(0, 0) == 1) & (e.axes()(1, 1) == 1) & (e.axes()(0, 1) == 0) & (e.axes()(1, 0) == 0)); e.compute(g.m); axes(g, e); }
}
VC_CASES(C34_float, 2)
VC_PROOF(C34_float, "ecl::CovarianceEllipsoid<float, 2>::compute; ecl::CovarianceEllipsoid<float, 2>::CovarianceEllipsoid") {
  Given<float> g(vc::any_float("excess of the major"), vc::any_float("minor"), vc::any_float("tangent"));
  if (__vc_case()) { ecl::CovarianceEllipsoid<float, 2> e(g.m); axes(g, e); }
  else { ecl::CovarianceEllipsoid<float, 2> e; VC_ENSURES("the unit circle by default", (e.lengths()(0) == 1) & (e.lengths()(1) == 1) & (e.axes()(0, 0) == 1) & (e.axes()(1, 1) == 1) & (e.axes()(0, 1) == 0) & (e.axes()(1, 0) == 0)); e.compute(g.m); axes(g, e); }
}
VC_PROOF(C34_rotation, "ecl::CovarianceEllipsoid<double, 2>::rotation; ecl::CovarianceEllipsoid<float, 2>::rotation") {
  double p = vc::any_double("excess of the major"), q = vc::any_double("minor"), t = vc::any_double("tangent");
  Given<double> g(p, q, t); Given<float> h(p, q, t);
  ecl::CovarianceEllipsoid<double, 2> e(g.m); ecl::CovarianceEllipsoid<float, 2> f(h.m);
  double r = e.rotation();
  VC_ENSURES("the angle of the major axis", vc::real_eq(std::cos(r), e.axes()(0, 0)) & vc::real_eq(std::sin(r), e.axes()(1, 0)));
  VC_ENSURES("the angle of the major axis (float)", vc::real_eq(f.rotation(), r));
}
static __attribute__((noinline, optnone)) double ratio(double a, double b) { return a / b; }
// bounded: one shape (half axes 26 and 7) of any size, in four directions
VC_CASES(C34_intercepts, 8)
VC_BOUNDED(C34_intercepts, "half axes in the ratio 26:7, turned by 2 atan(1/4), 2 atan(3/5) and their opposites; any size")
VC_PROOF(C34_intercepts, "ecl::CovarianceEllipsoid<double, 2>::intercepts; ecl::CovarianceEllipsoid<float, 2>::intercepts") {
  int k = __vc_case() % 4; double w = vc::any_double("size"), t = k == 0 ? 0.25 : k == 1 ? ratio(3, 5) : k == 2 ? -0.25 : -ratio(3, 5), x, y, a, d, q = 7 * w, p = 26 * w;
  VC_REQUIRES(w > 0);
  if (__vc_case() < 4) { Given<double> g(19 * w, q, t); ecl::CovarianceEllipsoid<double, 2> e(g.m); auto i = e.intercepts(); x = i(0); y = i(1); a = g.m(0, 0); d = g.m(1, 1); }
  else { Given<float> g(19 * w, q, t); ecl::CovarianceEllipsoid<float, 2> e(g.m); auto i = e.intercepts(); x = i(0); y = i(1); a = g.m(0, 0); d = g.m(1, 1); }
  // (x, 0) and (0, y) lie on z' M^-1 z = 1
  VC_ENSURES("where the ellipse meets the x axis", (x > 0) & vc::real_eq(x * x * d, p * p * q * q));
  VC_ENSURES("where the ellipse meets the y axis", (y > 0) & vc::real_eq(y * y * a, p * p * q * q));
}
