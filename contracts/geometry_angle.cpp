// Contracts of wrap_angle and Angle (C13).
// VC-FLAGS: -I/usr/include/eigen3 -Decl_linear_algebra_LINEAR_ALGEBRA_SOPHUS_HPP_ -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_DEBUG -DEIGEN_MAX_ALIGN_BYTES=0
#include "vc.h"
#include <ecl_geometry/src/lib/angle.cpp>

static const double PI = 3.14159265358979323846;
static double mag(double x) { return x < 0 ? -x : x; }
// a turn of the machine: the constant of the library, which differs from 2 PI by rounding only
static bool whole_turns(double x, double y, double turn) { double k = std::floor((x - y) / turn + 0.5); return vc::real_eq(x - y, k * turn); }
static bool within(double a) { return (a <= PI + 1e-6) & (a >= -PI - 1e-6); }
static bool within_d(double a) { return (a <= ecl::pi) & (a >= -ecl::pi); }
static const double TURN = 2.0 * ecl::pi;

VC_PROOF(C13_constants, "ecl::wrap_angle") {
  VC_ENSURES("pi", mag(ecl::pi - PI) < 1e-14);
  double x = 0; ecl::wrap_angle(x);
}
VC_PROOF(C13_wrap_double, "ecl::wrap_angle") {
  double x = vc::any_double("x"), a = x;
  const double &r = ecl::wrap_angle(a);
  VC_ENSURES("the argument is what is returned", &r == &a);
  VC_ENSURES("within a half turn", within_d(a));
  VC_ENSURES("a whole number of turns away", whole_turns(x, a, TURN));
  VC_ENSURES("unchanged when within a half turn already", !within_d(x) | (a == x));
  const double c = x;
  double b = ecl::wrap_angle(c);
  VC_ENSURES("the copying form gives the same", vc::real_eq(a, b));
}
VC_PROOF(C13_wrap_float, "ecl::wrap_angle") {
  float x = vc::any_float("x"), a = x;
  const float &r = ecl::wrap_angle(a);
  VC_ENSURES("the argument is what is returned", &r == &a);
  VC_ENSURES("within a half turn", within(a));
  VC_ENSURES("a whole number of turns away", whole_turns(x, a, (float)TURN));
  VC_ENSURES("unchanged when within a half turn already", !within_d(x) | (a == x));
  const float c = x;
  float b = ecl::wrap_angle(c);
  VC_ENSURES("the copying form gives the same", vc::real_eq(a, b));
}
typedef ecl::Angle<double> AD; typedef ecl::Angle<float> AF;
static double val(const AD &a) { return (const double &)a; }
static double valf(const AF &a) { return (const float &)a; }
#define CHECK_D(name, e, x) do { AD r_ = (e); VC_ENSURES(name ": within a half turn", within_d(val(r_))); VC_ENSURES(name ": a whole number of turns away", whole_turns((x), val(r_), TURN)); } while (0)
VC_PROOF(C13_angle_double, "ecl::Angle<double, void>::operator+; ecl::Angle<double, void>::operator-; ecl::Angle<double, void>::operator*; ecl::Angle<double, void>::operator+=; ecl::Angle<double, void>::operator-=; ecl::Angle<double, void>::operator*=; ecl::Angle<double, void>::operator=; ecl::Angle<double, void>::Degrees; ecl::Angle<double, void>::Radians; ecl::Angle<double, void>::degrees") {
  double x = vc::any_double("x"), y = vc::any_double("y"), s = vc::any_double("s");
  int what = __vc_case();
  if ((what >= 2) & (what <= 11) | (what == 14)) VC_REQUIRES(within_d(x));   // every value an Angle can have
  if ((what == 3) | (what == 5) | (what == 7) | (what == 9)) VC_REQUIRES(within_d(y));
  AD a(x);
  double v = val(a);
  if (what == 0) CHECK_D("construction", a, x);
  if (what == 1) { a = y; CHECK_D("assignment", a, y); }
  if (what == 2) CHECK_D("sum with a number", a + y, v + y);
  if (what == 3) { AD b(y); CHECK_D("sum", a + b, v + val(b)); VC_ENSURES("the operands are left alone", (val(a) == x) & (val(b) == y)); }
  if (what == 4) { a += y; CHECK_D("addition of a number", a, v + y); }
  if (what == 5) { AD b(y); a += b; CHECK_D("addition", a, v + val(b)); }
  if (what == 6) CHECK_D("difference to a number", a - y, v - y);
  if (what == 7) { AD b(y); CHECK_D("difference", a - b, v - val(b)); CHECK_D("difference the other way", b - a, val(b) - v); }
  if (what == 8) { a -= y; CHECK_D("subtraction of a number", a, v - y); }
  if (what == 9) { AD b(y); a -= b; CHECK_D("subtraction", a, v - val(b)); }
  if (what == 10) CHECK_D("product", a * s, v * s);
  if (what == 11) { a *= s; CHECK_D("multiplication", a, v * s); }
  if (what == 12) CHECK_D("of radians", AD::Radians(x), x);
  if (what == 13) { AD r = AD::Degrees(x); VC_ENSURES("degrees: within a half turn", within_d(val(r))); VC_ENSURES("degrees: a whole number of turns away", whole_turns(x * ecl::degrees_to_radians(1.0), val(r), TURN)); }
  if (what == 14) { VC_ENSURES("in degrees", mag(a.degrees() - v * 180.0 / ecl::pi) <= 1e-12 * mag(v)); AD b(a); VC_ENSURES("a copy", val(b) == v); a += a; CHECK_D("added to itself", a, v + v); }
}
VC_CASES(C13_angle_double, 15)
#define CHECK_F(name, e, x) do { AF r_ = (e); VC_ENSURES(name ": within a half turn", within(valf(r_))); VC_ENSURES(name ": a whole number of turns away", whole_turns((x), valf(r_), (float)TURN)); } while (0)
VC_PROOF(C13_angle_float, "ecl::Angle<float, void>::operator+; ecl::Angle<float, void>::operator-; ecl::Angle<float, void>::operator*; ecl::Angle<float, void>::operator+=; ecl::Angle<float, void>::operator-=; ecl::Angle<float, void>::operator*=; ecl::Angle<float, void>::operator=; ecl::Angle<float, void>::Degrees; ecl::Angle<float, void>::Radians; ecl::Angle<float, void>::degrees") {
  float x = vc::any_float("x"), y = vc::any_float("y"), s = vc::any_float("s");
  int what = __vc_case();
  if ((what >= 2) & (what <= 11) | (what == 14)) VC_REQUIRES(within_d(x));   // every value an Angle can have
  if ((what == 3) | (what == 5) | (what == 7) | (what == 9)) VC_REQUIRES(within_d(y));
  AF a(x);
  double v = valf(a);
  if (what == 0) CHECK_F("construction", a, x);
  if (what == 1) { a = y; CHECK_F("assignment", a, y); }
  if (what == 2) CHECK_F("sum with a number", a + y, v + y);
  if (what == 3) { AF b(y); CHECK_F("sum", a + b, v + valf(b)); VC_ENSURES("the operands are left alone", (valf(a) == x) & (valf(b) == y)); }
  if (what == 4) { a += y; CHECK_F("addition of a number", a, v + y); }
  if (what == 5) { AF b(y); a += b; CHECK_F("addition", a, v + valf(b)); }
  if (what == 6) CHECK_F("difference to a number", a - y, v - y);
  if (what == 7) { AF b(y); CHECK_F("difference", a - b, v - valf(b)); }
  if (what == 8) { a -= y; CHECK_F("subtraction of a number", a, v - y); }
  if (what == 9) { AF b(y); a -= b; CHECK_F("subtraction", a, v - valf(b)); }
  if (what == 10) CHECK_F("product", a * s, v * s);
  if (what == 11) { a *= s; CHECK_F("multiplication", a, v * s); }
  if (what == 12) CHECK_F("of radians", AF::Radians(x), x);
  if (what == 13) { AF r = AF::Degrees(x); VC_ENSURES("degrees: within a half turn", within(valf(r))); VC_ENSURES("degrees: a whole number of turns away", whole_turns((double)x * ecl::degrees_to_radians(1.0f), valf(r), (float)TURN)); }
  if (what == 14) VC_ENSURES("in degrees", mag(a.degrees() - v * 180.0 / ecl::pi) <= 1e-6 * mag(v));
}
VC_CASES(C13_angle_float, 15)
VC_PROOF(C13_degrees, "double ecl::radians_to_degrees<double>; float ecl::degrees_to_radians<float>") {
  double x = vc::any_double("x"); float f = vc::any_float("f");
  VC_ENSURES("radians to degrees", mag(ecl::radians_to_degrees(x) - x * 180.0 / ecl::pi) <= 1e-12 * mag(x));
  VC_ENSURES("degrees to radians", mag(ecl::degrees_to_radians(x) - x * ecl::pi / 180.0) <= 1e-12 * mag(x));
  VC_ENSURES("radians to degrees (float)", mag(ecl::radians_to_degrees(f) - f * 180.0 / ecl::pi) <= 1e-5 * mag(f));
  VC_ENSURES("degrees to radians (float)", mag(ecl::degrees_to_radians(f) - f * ecl::pi / 180.0) <= 1e-7 * mag(f));
}
VC_PROOF(C13_rotation, "ecl::Angle<double, void>::rotationMatrix") {
  double x = vc::any_double("x");
  VC_REQUIRES(within_d(x));
  AD a(x);
  AD::RotationMatrix m = a.rotationMatrix();
  double c = std::cos(x), s = std::sin(x);
  VC_ENSURES("the rotation of the angle", vc::real_eq(m(0, 0), c) & vc::real_eq(m(1, 1), c) & vc::real_eq(m(1, 0), s) & vc::real_eq(m(0, 1), -s));
}
VC_PROOF(C13_of_rotation, "ecl::Angle<double, void>::Angle") {
  double c = vc::any_double("c"), s = vc::any_double("s");
  VC_REQUIRES(vc::real_eq(c * c + s * s, 1));   // a rotation matrix
  AD::RotationMatrix m;
  m(0, 0) = c; m(0, 1) = -s; m(1, 0) = s; m(1, 1) = c;
  AD b(m);
  double w = val(b);
  VC_ENSURES("angle of a rotation: within a half turn", within(w));
  VC_ENSURES("angle of a rotation: the same rotation", vc::real_eq(std::cos(w), c) & vc::real_eq(std::sin(w), s));
}
