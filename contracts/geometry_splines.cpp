// Contracts of the splines (C17).
#include "vc.h"
#include <ecl_exceptions/src/lib/standard_exception.cpp>
#include <ecl_type_traits/src/lib/numeric_limits.cpp>
#include <ecl_geometry/src/lib/pascals_triangle.cpp>
#include <ecl_geometry/src/lib/polynomial.cpp>
#include <ecl_geometry/src/lib/polynomial_blueprints.cpp>
#include <ecl_geometry/src/lib/cubic_spline.cpp>
#include <ecl_geometry/src/lib/cubic_spline_blueprints.cpp>
#include <ecl_geometry/src/lib/tension_function.cpp>
#include <ecl_geometry/src/lib/tension_spline.cpp>
#include <ecl_geometry/src/lib/tension_spline_blueprints.cpp>
#include <ecl_geometry/src/lib/smooth_linear_spline.cpp>

// VC-ASSUME: the text of a DataException (create_combined_message, a std::ostringstream) is left out here
template <> void ecl::DataException<int>::create_combined_message() {}
static const char *const HN[] = {"", "h1", "h2", "h3", "h4"}, *const YN[] = {"y0", "y1", "y2", "y3", "y4"};
// n points with increasing abscissae
struct Points { int n; double x[5], y[5]; ecl::Array<double> xs, ys;
  Points(int k, bool uniform = false) : n(k), xs(k), ys(k) { for (int i = 0; i < n; ++i) { if (i) { double h = uniform && i == 2 ? x[1] - x[0] : vc::any_double(HN[i]); VC_REQUIRES(h > 0); x[i] = x[i - 1] + h; } else x[0] = vc::any_double("x0"); y[i] = vc::any_double(YN[i]); xs[i] = x[i]; ys[i] = y[i]; } } };
template <class S> static bool refuses(const S &s, double x) {
  int n = 0;
  try { s(x); } catch (const ecl::StandardException &e) { n += e.flag() == ecl::OutOfRangeError; }
  try { s.derivative(x); } catch (const ecl::StandardException &e) { n += e.flag() == ecl::OutOfRangeError; }
  try { s.dderivative(x); } catch (const ecl::StandardException &e) { n += e.flag() == ecl::OutOfRangeError; }
  return n == 3;
}
template <class S> static void outside(const S &s, const Points &p) {
  double x = vc::any_double("x");
  if (__vc_case() & 1) VC_REQUIRES(x < p.x[0]); else VC_REQUIRES(x > p.x[p.n - 1]);
  VC_ENSURES("arguments outside of the domain are refused", refuses(s, x));
}
// every piece is the polynomial reported for its interval
static void evaluates(ecl::CubicSpline &s, const Points &p) {
  int k = vc::choose("piece", 0, p.n - 2); double x = vc::any_double("x");
  VC_REQUIRES(p.x[k] <= x); VC_REQUIRES(x <= p.x[k + 1]);
  bool inside = (p.x[k] < x) & (x < p.x[k + 1]);
  const ecl::CubicPolynomial &c = s.polynomials()[k];
  VC_ENSURES("evaluated by the piece whose interval contains the argument", vc::real_eq(s(x), c(x)));
  VC_ENSURES("first derivative of the piece whose interval contains the argument", !inside | vc::real_eq(s.derivative(x), c.derivative(x)));
  VC_ENSURES("second derivative of the piece whose interval contains the argument", !inside | vc::real_eq(s.dderivative(x), c.dderivative(x)));
}
static void interpolates(ecl::CubicSpline &s, const Points &p, bool second) {
  bool through = true, smooth = true, smooth2 = true;
  for (int i = 0; i + 1 < p.n; ++i) {
    const ecl::CubicPolynomial &c = s.polynomials()[i];
    through = through & vc::real_eq(c(p.x[i]), p.y[i]) & vc::real_eq(c(p.x[i + 1]), p.y[i + 1]);
    if (i + 2 < p.n) {
      const ecl::CubicPolynomial &d = s.polynomials()[i + 1];
      smooth = smooth & vc::real_eq(c.derivative(p.x[i + 1]), d.derivative(p.x[i + 1]));
      smooth2 = smooth2 & vc::real_eq(c.dderivative(p.x[i + 1]), d.dderivative(p.x[i + 1]));
    }
  }
  VC_ENSURES("through every point", through);
  VC_ENSURES("the slopes agree at the knots", smooth);
  if (second) VC_ENSURES("the second derivatives agree at the knots", smooth2);
  bool dom = s.domain().size() == (unsigned)p.n; for (int i = 0; i < p.n; ++i) dom = dom & (s.domain()[i] == p.x[i]);
  VC_ENSURES("the knots are the abscissae", dom & (s.polynomials().size() == (unsigned)p.n - 1));
}
VC_CASES(C17_natural, VC_TIER ? 4 : 3)
VC_BOUNDED(C17_natural, "2 to 4 points (thorough: 5)")
VC_PROOF(C17_natural, "ecl::blueprints::C2CubicSpline::C2CubicSpline; ecl::blueprints::C2CubicSpline::apply") {
  Points p(2 + __vc_case());
  ecl::CubicSpline s = ecl::CubicSpline::Natural(p.xs, p.ys);
  interpolates(s, p, true);
  int n = p.n;
  VC_ENSURES("natural ends", vc::real_eq(s.polynomials()[0].dderivative(p.x[0]), 0) & vc::real_eq(s.polynomials()[n - 2].dderivative(p.x[n - 1]), 0));
}
VC_CASES(C17_clamped, 3)
VC_BOUNDED(C17_clamped, "2 to 4 points")
VC_PROOF(C17_clamped, "ecl::blueprints::C2CubicSpline::C2CubicSpline; ecl::blueprints::C2CubicSpline::apply") {
  Points p(2 + __vc_case()); double a = vc::any_double("slope at the start"), b = vc::any_double("slope at the end");
  ecl::CubicSpline s = ecl::CubicSpline::ContinuousDerivatives(p.xs, p.ys, a, b);
  interpolates(s, p, true);
  int n = p.n;
  VC_ENSURES("the slopes at the ends", vc::real_eq(s.polynomials()[0].derivative(p.x[0]), a) & vc::real_eq(s.polynomials()[n - 2].derivative(p.x[n - 1]), b));
}
VC_CASES(C17_heuristic, VC_TIER ? 4 : 3)
VC_BOUNDED(C17_heuristic, "2 to 4 points (thorough: 5)")
VC_PROOF(C17_heuristic, "ecl::blueprints::DerivativeHeuristicCubicSpline::DerivativeHeuristicCubicSpline; ecl::blueprints::DerivativeHeuristicCubicSpline::apply") {
  Points p(2 + __vc_case()); double a = vc::any_double("slope at the start"), b = vc::any_double("slope at the end");
  ecl::CubicSpline s = ecl::CubicSpline::DerivativeHeuristic(p.xs, p.ys, a, b);
  interpolates(s, p, false);
  int n = p.n;
  VC_ENSURES("the slopes at the ends", vc::real_eq(s.polynomials()[0].derivative(p.x[0]), a) & vc::real_eq(s.polynomials()[n - 2].derivative(p.x[n - 1]), b));
  bool mean = true;
  for (int i = 1; i + 1 < n; ++i) mean = mean & vc::real_eq(2 * s.polynomials()[i].derivative(p.x[i]), (p.y[i] - p.y[i - 1]) / (p.x[i] - p.x[i - 1]) + (p.y[i + 1] - p.y[i]) / (p.x[i + 1] - p.x[i]));
  VC_ENSURES("the slopes at the knots are the mean of the slopes beside them", mean);
}
VC_CASES(C17_cubic_evaluation, 3)
VC_BOUNDED(C17_cubic_evaluation, "4 points; any argument")
VC_PROOF(C17_cubic_evaluation, "ecl::CubicSpline::operator(); ecl::CubicSpline::derivative; ecl::CubicSpline::dderivative") {
  Points p(4);
  ecl::CubicSpline s = ecl::CubicSpline::DerivativeHeuristic(p.xs, p.ys, vc::any_double("a"), vc::any_double("b"));
  if (__vc_case() < 2) outside(s, p); else evaluates(s, p);
}
VC_CASES(C17_bad_points, 3)
VC_PROOF(C17_bad_points, "ecl::blueprints::C2CubicSpline::C2CubicSpline; ecl::blueprints::DerivativeHeuristicCubicSpline::DerivativeHeuristicCubicSpline; ecl::blueprints::C2TensionSpline::C2TensionSpline; ecl::SmoothLinearSpline::SmoothLinearSpline") {
  int n = vc::choose("points", 2, 3), m = vc::choose("values", 2, 4);
  VC_REQUIRES(n != m);
  ecl::Array<double> x(n), y(m); for (int i = 0; i < n; ++i) x[i] = i; for (int i = 0; i < m; ++i) y[i] = 1;
  int refused = 0;
  try { if (__vc_case() == 0) ecl::CubicSpline::Natural(x, y); else if (__vc_case() == 1) ecl::CubicSpline::ContinuousDerivatives(x, y, 0, 0); else { ecl::CubicSpline::DerivativeHeuristic(x, y, 0, 0); } } catch (const ecl::StandardException &e) { refused += e.flag() == ecl::OutOfRangeError; }
  try { ecl::TensionSpline::Natural(x, y, 1); } catch (const ecl::StandardException &e) { refused += e.flag() == ecl::OutOfRangeError; }
  try { ecl::SmoothLinearSpline(x, y, 1); } catch (const ecl::DataException<int> &e) { refused += e.flag() == ecl::OutOfRangeError; }
  VC_ENSURES("as many abscissae as values", refused == 3);
}
// ---------------------------------------------------------------- tension
VC_PROOF(C17_tension_function, "ecl::TensionFunction::operator(); ecl::TensionFunction::derivative; ecl::TensionFunction::dderivative") {
  double x0 = vc::any_double("x0"), x1 = vc::any_double("x1"), y0 = vc::any_double("y0"), y1 = vc::any_double("y1"), z0 = vc::any_double("z0"), z1 = vc::any_double("z1"), t = vc::any_double("tension");
  VC_REQUIRES(x0 < x1); VC_REQUIRES(t > 0);
  ecl::TensionFunction f = ecl::TensionFunction::Interpolation(x0, y0, z0, x1, y1, z1);
  VC_ENSURES("the value at the start", vc::real_eq(f(t, x0), y0)); VC_ENSURES("the value at the end", vc::real_eq(f(t, x1), y1));
  VC_ENSURES("the second derivative at the start", vc::real_eq(f.dderivative(t, x0), z0)); VC_ENSURES("the second derivative at the end", vc::real_eq(f.dderivative(t, x1), z1));
  // between the ends: f'' - t^2 f is linear and meets the ends, and f' is the derivative of f, by the derivatives of sinh and cosh
  double x = vc::any_double("x"), h = x1 - x0, p = std::sinh(t * (x1 - x)), q = std::sinh(t * (x - x0)), s = std::sinh(t * h), cp = std::cosh(t * (x1 - x)), cq = std::cosh(t * (x - x0));
  VC_ENSURES("the value", vc::real_eq(f(t, x), (z0 * p + z1 * q) / (t * t * s) + ((y0 - z0 / (t * t)) * (x1 - x) + (y1 - z1 / (t * t)) * (x - x0)) / h));
  VC_ENSURES("the first derivative", vc::real_eq(f.derivative(t, x), (z1 * cq - z0 * cp) / (t * s) + ((y1 - z1 / (t * t)) - (y0 - z0 / (t * t))) / h));
  VC_ENSURES("the second derivative", vc::real_eq(f.dderivative(t, x), (z0 * p + z1 * q) / s));
}
VC_CASES(C17_tension, 3)
VC_BOUNDED(C17_tension, "2 to 4 points")
VC_PROOF(C17_tension, "ecl::blueprints::C2TensionSpline::C2TensionSpline; ecl::blueprints::C2TensionSpline::apply; ecl::TensionSpline::operator(); ecl::TensionSpline::derivative; ecl::TensionSpline::dderivative") {
  Points p(2 + __vc_case()); double t = vc::any_double("tension"); VC_REQUIRES(t > 0);
  ecl::TensionSpline s = ecl::TensionSpline::Natural(p.xs, p.ys, t);
  int n = p.n;
  bool through = true; for (int i = 0; i < n; ++i) through = through & vc::real_eq(s(p.x[i]), p.y[i]);
  VC_ENSURES("through every point", through);
  VC_ENSURES("natural ends", vc::real_eq(s.dderivative(p.x[0]), 0) & vc::real_eq(s.dderivative(p.x[n - 1]), 0));
  // on both sides of a knot: the piece before it is that of the spline, the piece behind it is the one with the same knots and second derivatives
  for (int i = 1; i + 1 < n; ++i) {
    double z = s.dderivative(p.x[i]), zn = s.dderivative(p.x[i + 1]);
    ecl::TensionFunction f = ecl::TensionFunction::Interpolation(p.x[i], p.y[i], z, p.x[i + 1], p.y[i + 1], zn);
    VC_ENSURES("the slopes agree at the knots", vc::real_eq(s.derivative(p.x[i]), f.derivative(t, p.x[i])));
    if (n == 4) continue;
    double x = vc::any_double("x");
    if ((p.x[i] < x) & (x <= p.x[i + 1])) VC_ENSURES("the second derivatives agree at the knots", vc::real_eq(s(x), f(t, x)));
  }
}
VC_CASES(C17_tension_outside, 2)
VC_BOUNDED(C17_tension_outside, "3 points")
VC_PROOF(C17_tension_outside, "ecl::TensionSpline::operator(); ecl::TensionSpline::derivative; ecl::TensionSpline::dderivative") {
  Points p(3); double t = vc::any_double("tension"); VC_REQUIRES(t > 0);
  ecl::TensionSpline s = ecl::TensionSpline::Natural(p.xs, p.ys, t);
  outside(s, p);
}
// ---------------------------------------------------------------- smoothed lines
static const double ABSCISSAE[3][4] = {{0, 10, 20, 0}, {-10, 0, 30, 0}, {0, 10, 30, 40}};
VC_CASES(C17_smooth, 10)
VC_BOUNDED(C17_smooth, "the abscissae 0 10 20, -10 0 30 and 0 10 30 40 (one and two corners); any ordinates, any bound, any argument (the bound itself: not on the second set)")
VC_PROOF(C17_smooth, "ecl::SmoothLinearSpline::SmoothLinearSpline; ecl::SmoothLinearSpline::operator(); ecl::SmoothLinearSpline::derivative; ecl::SmoothLinearSpline::dderivative") {
  int what = __vc_case() < 8 ? __vc_case() % 4 : (__vc_case() - 8) % 3, shape = __vc_case() < 4 ? 0 : __vc_case() < 8 ? 2 : 1, n = shape == 2 ? 4 : 3;
  const double *px = ABSCISSAE[shape]; double py[4], m[3];
  ecl::Array<double> xs(n), ys(n);
  for (int i = 0; i < n; ++i) { xs[i] = px[i]; ys[i] = py[i] = vc::any_double(YN[i]); if (i) m[i - 1] = (py[i] - py[i - 1]) / (px[i] - px[i - 1]); }
  double a = vc::any_double("a_max"); VC_REQUIRES(a > 0);
  bool built = true;
  try {
    ecl::SmoothLinearSpline s(xs, ys, a);
    const ecl::Array<double> &d = s.domain();
    bool shaped = (d.size() == 2u * (n - 1)) & (d[0] == px[0]) & (d[2 * n - 3] == px[n - 1]);
    for (int i = 1; i + 1 < n; ++i) shaped = shaped & (d[2 * i - 2] <= d[2 * i - 1]) & (d[2 * i - 1] <= px[i]) & (px[i] <= d[2 * i]) & (d[2 * i] <= d[2 * i + 1]);
    VC_ENSURES("lines and corners by turns, each corner about its point", shaped);
    double x = vc::any_double("x");
    int k = vc::choose("line or corner", 0, n - 2);
    if (what == 0) { VC_REQUIRES(d[2 * k] < x); VC_REQUIRES(x <= d[2 * k + 1]); VC_ENSURES("between the corners: the line through the points", vc::real_eq(s(x), py[k] + m[k] * (x - px[k])) & vc::real_eq(s.derivative(x), m[k]) & vc::real_eq(s.dderivative(x), 0)); }
    if (what == 1) { VC_REQUIRES(k > 0); VC_REQUIRES(d[2 * k - 1] < d[2 * k]); double e = d[2 * k]; VC_ENSURES("a corner meets the line behind it", vc::real_eq(s(e), py[k] + m[k] * (e - px[k])) & vc::real_eq(s.derivative(e), m[k]) & vc::real_eq(s.dderivative(e), 0)); }
    if (what == 2 && shape != 1) { VC_REQUIRES(k > 0); VC_REQUIRES(d[2 * k - 1] < x); VC_REQUIRES(x < d[2 * k]); double c = s.dderivative(x); VC_ENSURES("the second derivative of a corner is within the bound", (-a < c) & (c < a)); }
    if (what == 3) { VC_REQUIRES((x < px[0]) | (x > px[n - 1])); VC_ENSURES("arguments outside of the domain are refused", refuses(s, x)); }
  } catch (const ecl::DataException<int> &e) {
    built = false;
    VC_ENSURES("names the corner that cannot be built", (e.flag() == ecl::ConstructorError) & (e.data() >= 1) & (e.data() <= n - 2));
  }
  // a straight line needs no acceleration
  if (!built) VC_ENSURES("a corner that is built within any bound", !(vc::real_eq(m[0], m[1]) & vc::real_eq(m[n - 3], m[n - 2])));
}
