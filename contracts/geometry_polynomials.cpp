// Contracts of Polynomial, PascalsTriangle, the function math and the interpolation blueprints (C14, C15, C16).
#include "vc.h"
#include <ecl_exceptions/src/lib/standard_exception.cpp>
#include <ecl_type_traits/src/lib/numeric_limits.cpp>
#include <ecl_geometry/src/lib/pascals_triangle.cpp>
#include <ecl_geometry/src/lib/polynomial.cpp>
#include <ecl_geometry/src/lib/polynomial_blueprints.cpp>

static double power(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r = r * x; return r; }
// the polynomial with the coefficients a, its derivatives
static double at(const double *a, int n, double x) { double r = 0; for (int i = 0; i <= n; ++i) r = r + a[i] * power(x, i); return r; }
static double at1(const double *a, int n, double x) { double r = 0; for (int i = 1; i <= n; ++i) r = r + i * a[i] * power(x, i - 1); return r; }
static double at2(const double *a, int n, double x) { double r = 0; for (int i = 2; i <= n; ++i) r = r + i * (i - 1) * a[i] * power(x, i - 2); return r; }

static const char *const COEFF[] = {"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"};
template <unsigned int N> struct Any {
  double a[N + 1]; ecl::Polynomial<N> p;
  Any() { for (unsigned int i = 0; i <= N; ++i) { a[i] = vc::any_double(COEFF[i]); p.coefficients()[i] = a[i]; } }
  bool same() const { bool ok = true; for (unsigned int i = 0; i <= N; ++i) ok = ok & vc::real_eq(a[i], p.coefficients()[i]); return ok; }
};
template <unsigned int N> struct Values { static void check() {
  Any<N> f; double x = vc::any_double("x"), s = vc::any_double("s");
  VC_ENSURES("the value is the sum of the coefficients times powers", vc::real_eq(f.p(x), at(f.a, N, x)));
  VC_ENSURES("the value of the first derivative", vc::real_eq(f.p.derivative(x), at1(f.a, N, x)));
  VC_ENSURES("the value of the second derivative", vc::real_eq(f.p.dderivative(x), at2(f.a, N, x)));
  ecl::Polynomial<N - 1> d = f.p.derivative();
  VC_ENSURES("the derivative polynomial", vc::real_eq(d(x), at1(f.a, N, x)));
  VC_ENSURES("unchanged by the evaluations", f.same());
  ecl::Polynomial<N> z;
  VC_ENSURES("a new polynomial is zero", vc::real_eq(z(x), 0));
  f.p.shift_horizontal(s);
  VC_ENSURES("shifted to the right", vc::real_eq(f.p(x), at(f.a, N, x - s)));
} };
#define T_(n) "ecl::Polynomial<" #n "u>::operator(); ecl::Polynomial<" #n "u>::derivative; ecl::Polynomial<" #n "u>::dderivative; ecl::Polynomial<" #n "u>::shift_horizontal; ecl::PascalsTriangle<" #n ">::PascalsTriangle; ecl::PascalsTriangle<" #n ">::begin; ecl::PascalsTriangle<" #n ">::end"
VC_PROOF(C14_degree_1, T_(1)) { Values<1>::check(); }
VC_PROOF(C14_degree_2, T_(2)) { Values<2>::check(); }
VC_PROOF(C14_degree_3, T_(3)) { Values<3>::check(); }
VC_PROOF(C14_degree_4, T_(4)) { Values<4>::check(); }
VC_PROOF(C14_degree_5, T_(5)) { Values<5>::check(); }
VC_PROOF(C14_degree_6, T_(6)) { Values<6>::check(); }
VC_PROOF(C14_degree_7, T_(7)) { Values<7>::check(); }
VC_PROOF(C14_degree_0, "ecl::Polynomial<0u>::operator(); ecl::Polynomial<0u>::derivative; ecl::Polynomial<0u>::dderivative; ecl::Polynomial<0u>::shift_horizontal") {
  Any<0> f; double x = vc::any_double("x"), s = vc::any_double("s");
  VC_ENSURES("constant", (f.p(x) == f.a[0]) & (f.p.derivative(x) == 0) & (f.p.dderivative(x) == 0) & (f.p.derivative()(x) == 0));
  f.p.shift_horizontal(s);
  VC_ENSURES("constant when shifted", f.p(x) == f.a[0]);
}
VC_PROOF(C14_division, "ecl::Division<ecl::Polynomial<2u> >::operator(); ecl::Division<ecl::Polynomial<3u> >::operator()") {
  double x = vc::any_double("x"), g = vc::any_double("g"), r = vc::any_double("r");
  { Any<2> f; ecl::LinearFunction q = ecl::QuadraticPolynomial::Division(f.p, g, r);
    VC_ENSURES("quadratic: quotient times divisor plus remainder", vc::real_eq(at(f.a, 2, x), (x - g) * q(x) + r)); }
  { Any<3> f; ecl::QuadraticPolynomial q = ecl::CubicPolynomial::Division(f.p, g, r);
    VC_ENSURES("cubic: quotient times divisor plus remainder", vc::real_eq(at(f.a, 3, x), (x - g) * q(x) + r)); }
}

// ---------------------------------------------------------------- C15
static bool reported(const ecl::Array<double> &r, double x) { bool yes = false; for (unsigned int i = 0; i < r.size(); ++i) yes = yes | vc::real_eq(r[i], x); return yes; }
VC_PROOF(C15_roots_linear, "ecl::Roots<ecl::Polynomial<1u> >::operator()") {
  Any<1> f; double x = vc::any_double("x");
  VC_REQUIRES((f.a[0] != 0) | (f.a[1] != 0));   // the zero function has no finite number of roots
  ecl::Array<double> r = ecl::LinearFunction::Roots(f.p);
  bool all = true; for (unsigned int i = 0; i < r.size(); ++i) all = all & vc::real_eq(at(f.a, 1, r[i]), 0);
  VC_ENSURES("every reported root is one", all);
  if (vc::real_eq(at(f.a, 1, x), 0)) VC_ENSURES("every root is reported", reported(r, x));
}
VC_PROOF(C15_roots_quadratic, "ecl::Roots<ecl::Polynomial<2u> >::operator()") {
  Any<2> f; double x = vc::any_double("x");
  VC_REQUIRES((f.a[0] != 0) | (f.a[1] != 0) | (f.a[2] != 0));
  ecl::Array<double> r = ecl::QuadraticPolynomial::Roots(f.p);
  for (unsigned int i = 0; i < r.size(); ++i) VC_ENSURES("every reported root is one", vc::real_eq(at(f.a, 2, r[i]), 0));
  if (vc::real_eq(at(f.a, 2, x), 0)) VC_ENSURES("every root is reported", reported(r, x));
  if (r.size() == 2) VC_ENSURES("two different roots", r[0] != r[1]);
}
// a cubic with the roots of each kind; the case of three different roots is only checked where the middle one is the mean
VC_PROOF(C15_roots_cubic, "ecl::Roots<ecl::Polynomial<3u> >::operator()") {
  double a = vc::any_double("a"), r = vc::any_double("r"), s = vc::any_double("s"), k = vc::any_double("k");
  VC_REQUIRES(a != 0);
  ecl::CubicPolynomial f; double c2 = 0, c1 = 0, c0 = 0; int n = 0;
  switch (__vc_case()) {
  case 0: n = 1; c2 = -3 * r; c1 = 3 * r * r; c0 = -r * r * r; break;                                                       // (x-r)^3
  case 1: VC_REQUIRES(r != s); n = 2; c2 = -2 * r - s; c1 = r * r + 2 * r * s; c0 = -r * r * s; break;                      // (x-r)^2 (x-s)
  case 2: VC_REQUIRES(k != 0); n = 1; c2 = -r - 2 * s; c1 = s * s + 3 * k * k + 2 * r * s; c0 = -r * (s * s + 3 * k * k); break;   // (x-r)((x-s)^2 + 3 k^2)
  case 3: VC_REQUIRES(k != 0); n = 3; c2 = -3 * r; c1 = 3 * r * r - k * k; c0 = r * k * k - r * r * r; break;               // (x-r)((x-r)^2 - k^2)
  }
  f.coefficients() << a * c0, a * c1, a * c2, a;
  ecl::Array<double> x = ecl::CubicPolynomial::Roots(f);
  VC_ENSURES("as many roots as there are", (int)x.size() == n);
  bool first = reported(x, r);
  VC_ENSURES("the root is reported", first);
  if (__vc_case() == 1) VC_ENSURES("the other root is reported", reported(x, s));
  if (__vc_case() == 3) VC_ENSURES("the other roots are reported", reported(x, r + k) & reported(x, r - k));
}
VC_CASES(C15_roots_cubic, 4)
VC_PROOF(C15_roots_degenerate_cubic, "ecl::Roots<ecl::Polynomial<3u> >::operator()") {
  Any<3> f; double x = vc::any_double("x");
  VC_REQUIRES(f.a[3] == 0); VC_REQUIRES((f.a[0] != 0) | (f.a[1] != 0) | (f.a[2] != 0));
  f.p.coefficients()[3] = 0;
  ecl::Array<double> r = ecl::CubicPolynomial::Roots(f.p);
  for (unsigned int i = 0; i < r.size(); ++i) VC_ENSURES("every reported root is one", vc::real_eq(at(f.a, 2, r[i]), 0));
  if (vc::real_eq(at(f.a, 2, x), 0)) VC_ENSURES("every root is reported", reported(r, x));
}
VC_PROOF(C15_intersection, "ecl::Intersection<ecl::Polynomial<1u> >::operator()") {
  double a = vc::any_double("a0"), b = vc::any_double("a1"), c = vc::any_double("b0"), d = vc::any_double("b1");
  ecl::LinearFunction f, g; f.coefficients()[0] = a; f.coefficients()[1] = b; g.coefficients()[0] = c; g.coefficients()[1] = d;
  bool refused = false; double x = 0, y = 0;
  try { ecl::CartesianPoint2d p = ecl::LinearFunction::Intersection(f, g); x = p.x(); y = p.y(); } catch (const ecl::StandardException &) { refused = true; }
  if (refused) VC_ENSURES("only parallel lines, up to the precision, have none", ecl::isApprox(b, d));
  ecl::Intersection<ecl::LinearFunction> i; bool threw = false;
  VC_ENSURES("nothing failed yet", !i.fail());
  for (int again = 0; again < 2; ++again) {
    try { ecl::CartesianPoint2d p = i(f, g); x = p.x(); y = p.y(); threw = false; } catch (const ecl::StandardException &) { threw = true; }
    VC_ENSURES("tells whether the last operation failed", (threw == refused) & (i.fail() == refused));
    ecl::LinearFunction h = ecl::LinearFunction::PointSlopeForm(0, 0, 1), l = ecl::LinearFunction::PointSlopeForm(0, 0, -1);
    if (!again) { i(h, l); VC_ENSURES("which this one did not", !i.fail()); }
  }
  if (!refused) { VC_ENSURES("different slopes", b != d); VC_ENSURES("on the first line", vc::real_eq(y, a + b * x)); VC_ENSURES("on the second line", vc::real_eq(y, c + d * x)); }
}
VC_PROOF(C15_extrema_linear, "ecl::Maximum<ecl::Polynomial<1u> >::operator(); ecl::Minimum<ecl::Polynomial<1u> >::operator()") {
  Any<1> f; double from = vc::any_double("from"), to = vc::any_double("to"), x = vc::any_double("x");
  VC_REQUIRES((from <= x) & (x <= to));
  double hi = ecl::LinearFunction::Maximum(from, to, f.p), lo = ecl::LinearFunction::Minimum(from, to, f.p);
  VC_ENSURES("the maximum bounds the function", at(f.a, 1, x) <= hi);
  VC_ENSURES("the minimum bounds the function", at(f.a, 1, x) >= lo);
  double u = at(f.a, 1, from), v = at(f.a, 1, to);
  VC_ENSURES("the maximum is attained", vc::real_eq(hi, u) | vc::real_eq(hi, v));
  VC_ENSURES("the minimum is attained", vc::real_eq(lo, u) | vc::real_eq(lo, v));
}
// A continuous function attains its extrema on an interval at an end or where its derivative vanishes inside: the bounds are
// checked at those points.
VC_PROOF(C15_extrema_cubic, "ecl::Maximum<ecl::Polynomial<3u> >::operator(); ecl::Minimum<ecl::Polynomial<3u> >::operator()") {
  Any<3> f; double from = vc::any_double("from"), to = vc::any_double("to"), p = vc::any_double("p"), q = vc::any_double("q");
  VC_REQUIRES(from <= to);
  bool max = __vc_case() & 1; int points = __vc_case() >> 1;
  if (points == 0) {          // derivative without zeros, or linear
    double disc = 4 * f.a[2] * f.a[2] - 12 * f.a[3] * f.a[1];
    if (f.a[3] != 0) VC_REQUIRES(disc < 0);
  } else {                    // derivative with the zeros p <= q
    VC_REQUIRES(p <= q); VC_REQUIRES(f.a[3] != 0);
    f.a[1] = 3 * f.a[3] * p * q; f.a[2] = -3 * f.a[3] * (p + q) / 2;
    f.p.coefficients()[1] = f.a[1]; f.p.coefficients()[2] = f.a[2];
  }
  double m = max ? ecl::CubicPolynomial::Maximum(from, to, f.p) : ecl::CubicPolynomial::Minimum(from, to, f.p);
  double u = at(f.a, 3, from), v = at(f.a, 3, to);
  VC_ENSURES("bounds the function at the ends of the interval", max ? (u <= m) & (v <= m) : (u >= m) & (v >= m));
  bool attained = vc::real_eq(m, u) | vc::real_eq(m, v);
  if (points) {
    double c = at(f.a, 3, p), d = at(f.a, 3, q); bool pin = (from < p) & (p < to), qin = (from < q) & (q < to);
    VC_ENSURES("bounds the function where its derivative vanishes", max ? (!pin | (c <= m)) & (!qin | (d <= m)) : (!pin | (c >= m)) & (!qin | (d >= m)));
    attained = attained | pin & vc::real_eq(m, c) | qin & vc::real_eq(m, d);
  } else if (f.a[3] == 0 && f.a[2] != 0) {
    double x = -f.a[1] / (2 * f.a[2]), w = at(f.a, 3, x); bool in = (from < x) & (x < to);
    VC_ENSURES("bounds the function where its derivative vanishes", !in | (max ? w <= m : w >= m));
    attained = attained | in & vc::real_eq(m, w);
  }
  VC_ENSURES("attained in the interval", attained);
}
VC_CASES(C15_extrema_cubic, 4)
VC_OPTIONS(C15_extrema_cubic, "divzero=fork")   // a quotient by zero is infinite or not a number, neither lies in the interval

// ---------------------------------------------------------------- C16
template <unsigned int N> static double v0(const ecl::Polynomial<N> &p, double x) { return p(x); }
template <unsigned int N> static bool is(const ecl::Polynomial<N> &p, double x, double y) { double a[N + 1]; for (unsigned int i = 0; i <= N; ++i) a[i] = p.coefficients()[i]; return vc::real_eq(at(a, N, x), y); }
template <unsigned int N> static bool is1(const ecl::Polynomial<N> &p, double x, double y) { double a[N + 1]; for (unsigned int i = 0; i <= N; ++i) a[i] = p.coefficients()[i]; return vc::real_eq(at1(a, N, x), y); }
template <unsigned int N> static bool is2(const ecl::Polynomial<N> &p, double x, double y) { double a[N + 1]; for (unsigned int i = 0; i <= N; ++i) a[i] = p.coefficients()[i]; return vc::real_eq(at2(a, N, x), y); }
VC_PROOF(C16_line, "ecl::blueprints::LinearInterpolation::apply; ecl::blueprints::LinearPointSlopeForm::apply") {
  double x0 = vc::any_double("x0"), x1 = vc::any_double("x1"), y0 = vc::any_double("y0"), y1 = vc::any_double("y1"), s = vc::any_double("s");
  VC_REQUIRES(x0 != x1);
  ecl::LinearFunction f = ecl::LinearFunction::Interpolation(x0, y0, x1, y1), g = ecl::LinearFunction::PointSlopeForm(x1, y1, s);
  VC_ENSURES("through the first point", is(f, x0, y0));
  VC_ENSURES("through the second point", is(f, x1, y1));
  VC_ENSURES("point and slope: through the point", is(g, x1, y1));
  VC_ENSURES("point and slope: with the slope", is1(g, x0, s));
}
VC_PROOF(C16_cubic, "ecl::blueprints::CubicDerivativeInterpolation::apply") {
  double x0 = vc::any_double("x0"), x1 = vc::any_double("x1"), y0 = vc::any_double("y0"), y1 = vc::any_double("y1"), s0 = vc::any_double("s0"), s1 = vc::any_double("s1");
  VC_REQUIRES(x0 != x1);
  ecl::CubicPolynomial f = ecl::CubicPolynomial::DerivativeInterpolation(x0, y0, s0, x1, y1, s1);
  VC_ENSURES("value at the start", is(f, x0, y0)); VC_ENSURES("value at the end", is(f, x1, y1));
  VC_ENSURES("slope at the start", is1(f, x0, s0)); VC_ENSURES("slope at the end", is1(f, x1, s1));
}
VC_PROOF(C16_cubic_second, "ecl::blueprints::CubicSecondDerivativeInterpolation::apply") {
  double x0 = vc::any_double("x0"), x1 = vc::any_double("x1"), y0 = vc::any_double("y0"), y1 = vc::any_double("y1"), s0 = vc::any_double("s0"), s1 = vc::any_double("s1");
  VC_REQUIRES(x0 != x1);
  ecl::CubicPolynomial f = ecl::CubicPolynomial::SecondDerivativeInterpolation(x0, y0, s0, x1, y1, s1);
  VC_ENSURES("value at the start", is(f, x0, y0)); VC_ENSURES("value at the end", is(f, x1, y1));
  VC_ENSURES("second derivative at the start", is2(f, x0, s0)); VC_ENSURES("second derivative at the end", is2(f, x1, s1));
}
VC_PROOF(C16_quintic, "ecl::blueprints::QuinticInterpolation::apply") {
  double x0 = vc::any_double("x0"), x1 = vc::any_double("x1"), y0 = vc::any_double("y0"), y1 = vc::any_double("y1"), s0 = vc::any_double("s0"), s1 = vc::any_double("s1"), c0 = vc::any_double("c0"), c1 = vc::any_double("c1");
  VC_REQUIRES(x0 != x1);
  ecl::QuinticPolynomial f = ecl::QuinticPolynomial::Interpolation(x0, y0, s0, c0, x1, y1, s1, c1);
  VC_ENSURES("value at the start", is(f, x0, y0)); VC_ENSURES("value at the end", is(f, x1, y1));
  VC_ENSURES("slope at the start", is1(f, x0, s0)); VC_ENSURES("slope at the end", is1(f, x1, s1));
  VC_ENSURES("second derivative at the start", is2(f, x0, c0)); VC_ENSURES("second derivative at the end", is2(f, x1, c1));
}
