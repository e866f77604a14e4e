// Contracts of ecl_math (C26).
#include "vc.h"
#include <ecl/math/simple.hpp>
#include <ecl/math/norms.hpp>
#include <ecl/math/fuzzy.hpp>
#include <ecl_type_traits/src/lib/numeric_limits.cpp>

VC_PROOF(C26_sign, "ecl::sign; ecl::psign; ecl::nsign") {
  double x = vc::any_double("x"); int n = vc::any_int("n"); long l = vc::any_long("l"); unsigned u = vc::any_uint("u"); signed char c = vc::any_char("c"); float f = vc::any_float("f");
  VC_ENSURES("sign of a real", ecl::sign(x) == (x > 0 ? 1 : x < 0 ? -1 : 0));
  VC_ENSURES("sign of a float", ecl::sign(f) == (f > 0 ? 1 : f < 0 ? -1 : 0));
  VC_ENSURES("sign of an int", ecl::sign(n) == (n > 0 ? 1 : n < 0 ? -1 : 0));
  VC_ENSURES("sign of a long", ecl::sign(l) == (l > 0 ? 1 : l < 0 ? -1 : 0));
  VC_ENSURES("sign of an unsigned", ecl::sign(u) == (u > 0 ? 1 : 0));
  VC_ENSURES("sign of a char", ecl::sign(c) == (c > 0 ? 1 : c < 0 ? -1 : 0));
  VC_ENSURES("psign is 1 at zero", ecl::psign(x) == (x >= 0 ? 1 : -1) && ecl::psign(n) == (n >= 0 ? 1 : -1) && ecl::psign(l) == (l >= 0 ? 1 : -1) && ecl::psign(f) == (f >= 0 ? 1 : -1) && ecl::psign(u) == 1);
  VC_ENSURES("nsign is -1 at zero", ecl::nsign(x) == (x > 0 ? 1 : -1) && ecl::nsign(n) == (n > 0 ? 1 : -1) && ecl::nsign(l) == (l > 0 ? 1 : -1) && ecl::nsign(f) == (f > 0 ? 1 : -1) && ecl::nsign(u) == (u > 0 ? 1 : -1));
}
VC_PROOF(C26_cube_root, "ecl::cube_root") {
  double x = vc::any_double("x");
  double r = ecl::cube_root(x);
  VC_ENSURES("the cube of the cube root is the argument", vc::real_eq(r * r * r, x));
  VC_ENSURES("the cube root has the sign of the argument", (x > 0 && r > 0) || (x < 0 && r < 0) || (x == 0 && r == 0));
}
VC_PROOF(C26_norm2, "ecl::euclidean_norm; ecl::EuclideanNorm::operator()") {
  double x = vc::any_double("x"), y = vc::any_double("y");
  double n = ecl::euclidean_norm(x, y), m = ecl::EuclideanNorm()(x, y);
  VC_ENSURES("norm is not negative", n >= 0 && m >= 0);
  VC_ENSURES("norm squared is the sum of squares", vc::real_eq(n * n, x * x + y * y));
  VC_ENSURES("norm functor squared is the sum of squares", vc::real_eq(m * m, x * x + y * y));
}
VC_PROOF(C26_norm3, "ecl::euclidean_norm") {
  double x = vc::any_double("x"), y = vc::any_double("y"), z = vc::any_double("z");
  double n = ecl::euclidean_norm(x, y, z), m = ecl::EuclideanNorm()(x, y, z);
  VC_ENSURES("norm is not negative", n >= 0 && m >= 0);
  VC_ENSURES("norm squared is the sum of squares", vc::real_eq(n * n, x * x + y * y + z * z));
  VC_ENSURES("norm functor squared is the sum of squares", vc::real_eq(m * m, x * x + y * y + z * z));
}

static double mag(double x) { return x < 0 ? -x : x; }
static double least(double a, double b) { return a < b ? a : b; }
VC_PROOF(C26_close_reals, "ecl::isApprox; ecl::isApproxOrLessThan") {
  double x = vc::any_double("x"), y = vc::any_double("y"), p = vc::any_double("tolerance"); int n = vc::any_int("n"), k = vc::any_int("k");
  bool close = mag(x - y) <= least(mag(x), mag(y)) * p;
  VC_ENSURES("reals are close iff they differ by at most the tolerance times the smaller magnitude", ecl::isApprox(x, y, p) == close);
  VC_ENSURES("closeness is symmetric", ecl::isApprox(y, x, p) == close);
  VC_ENSURES("the default tolerance is the type's", ecl::isApprox(x, y) == (mag(x - y) <= least(mag(x), mag(y)) * ecl::numeric_limits<double>::dummy_precision));
  VC_ENSURES("close or less", ecl::isApproxOrLessThan(x, y, p) == (x <= y || close));
  VC_ENSURES("a real against an integer", ecl::isApprox(x, n, p) == (mag(x - n) <= least(mag(x), mag((double)n)) * p));
  VC_ENSURES("close or less against an integer", ecl::isApproxOrLessThan(x, n, p) == (x <= n || mag(x - n) <= least(mag(x), mag((double)n)) * p));
  if (n != k) VC_ENSURES("different integers are not close", !ecl::isApprox(n, k)); else VC_ENSURES("equal integers are close", ecl::isApprox(n, k));
  VC_ENSURES("integers: close or less is less or equal", ecl::isApproxOrLessThan(n, k) == (n <= k));
}
VC_PROOF(C26_close_integer_real, "ecl::isApprox") {
  int n = vc::any_int("n"); double y = vc::any_double("y"); float p = vc::any_float("tolerance");
  double t = p == 0 ? ecl::numeric_limits<double>::dummy_precision : (double)p;
  VC_ENSURES("an integer against a real", ecl::isApprox(n, y, p) == (mag(n - y) <= least(mag((double)n), mag(y)) * t));
  VC_ENSURES("an integer against a real, default tolerance", ecl::isApprox(n, y) == (mag(n - y) <= least(mag((double)n), mag(y)) * ecl::numeric_limits<double>::dummy_precision));
  VC_ENSURES("an integer against a real: close or less", ecl::isApproxOrLessThan(n, y) == (n <= y));
}
