// Contracts of the planar poses (C18) and of the differential drive kinematics (C20).
// VC-FLAGS: -I/usr/include/eigen3 -Decl_linear_algebra_LINEAR_ALGEBRA_SOPHUS_HPP_ -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_DEBUG -DEIGEN_MAX_ALIGN_BYTES=0
// VC-ASSUME: in sines and cosines a turn of the machine (2 pi, rounded) counts as a whole turn
#include "vc.h"
#include <ecl_geometry/src/lib/angle.cpp>
#include <ecl/geometry/pose2d.hpp>
#include <ecl/geometry/legacy_pose2d.hpp>
#include <ecl_mobile_robot/src/lib/differential_drive.cpp>

typedef ecl::linear_algebra::Matrix<double, 3, 1> V3;
static const double TURN = 2.0 * ecl::pi;
static bool whole_turns(double x, double y) { double k = std::floor((x - y) / TURN + 0.5); return vc::real_eq(x - y, k * TURN); }
static bool wrapped(double a) { return (a <= ecl::pi) & (a >= -ecl::pi); }
#define TURNED(name, x, y) do { VC_ENSURES(name ": within a half turn", wrapped(x)); VC_ENSURES(name ": a whole number of turns away", whole_turns((y), (x))); } while (0)
static V3 any(const char *x, const char *y, const char *h) { V3 v; v[0] = vc::any_double(x); v[1] = vc::any_double(y); v[2] = vc::any_double(h); return v; }
// the pose c given in the frame b, by rotating it into the frame of b
static bool composed(const V3 &r, const V3 &b, const V3 &c) {
  double co = std::cos(b[2]), si = std::sin(b[2]);
  return vc::real_eq(r[0], b[0] + co * c[0] - si * c[1]) & vc::real_eq(r[1], b[1] + si * c[0] + co * c[1]);
}
VC_PROOF(C18_concatenate, "ecl::concatenate_poses; ecl::extend_pose") {
  V3 b = any("bx", "by", "bh"), c = any("cx", "cy", "ch"), b0 = b, c0 = c;
  V3 r = ecl::concatenate_poses(b, c);
  VC_ENSURES("concatenated: the position", composed(r, b0, c0));
  TURNED("concatenated: the heading", r[2], b0[2] + c0[2]);
  VC_ENSURES("concatenated: the operands are left alone", (b[0] == b0[0]) & (b[1] == b0[1]) & (b[2] == b0[2]) & (c[0] == c0[0]) & (c[1] == c0[1]) & (c[2] == c0[2]));
  ecl::extend_pose(b, c);
  VC_ENSURES("extended: the same", vc::real_eq(b[0], r[0]) & vc::real_eq(b[1], r[1]) & vc::real_eq(b[2], r[2]));
  VC_ENSURES("extended: the extension is left alone", (c[0] == c0[0]) & (c[1] == c0[1]) & (c[2] == c0[2]));
}
VC_PROOF(C18_extend_by_itself, "ecl::extend_pose") {
  V3 b = any("bx", "by", "bh"), b0 = b;
  ecl::extend_pose(b, b);
  VC_ENSURES("extended by itself: the position", composed(b, b0, b0));
  TURNED("extended by itself: the heading", b[2], b0[2] + b0[2]);
}
VC_PROOF(C18_laws, "ecl::concatenate_poses") {
  V3 a = any("ax", "ay", "ah"), b = any("bx", "by", "bh"), c = any("cx", "cy", "ch"), o; o << 0, 0, 0;
  V3 l = ecl::concatenate_poses(ecl::concatenate_poses(a, b), c), r = ecl::concatenate_poses(a, ecl::concatenate_poses(b, c));
  VC_ENSURES("concatenation is associative", vc::real_eq(l[0], r[0]) & vc::real_eq(l[1], r[1]) & vc::real_eq(std::cos(l[2]), std::cos(r[2])) & vc::real_eq(std::sin(l[2]), std::sin(r[2])));
  V3 e = ecl::concatenate_poses(a, o), f = ecl::concatenate_poses(o, a);
  VC_ENSURES("nothing changes by nothing", vc::real_eq(e[0], a[0]) & vc::real_eq(e[1], a[1]) & vc::real_eq(f[0], a[0]) & vc::real_eq(f[1], a[1]));
  TURNED("nothing turns by nothing", e[2], a[2]); TURNED("nothing turned is what turned it", f[2], a[2]);
}
VC_PROOF(C18_pose_class, "ecl::Pose2D<double>::operator*; ecl::Pose2D<double>::operator*=") {
  V3 b = any("bx", "by", "bh"), c = any("cx", "cy", "ch");
  ecl::Pose2D<double> p(b), q(c), id;
  VC_ENSURES("what a pose was made of", (p.x() == b[0]) & (p.y() == b[1]) & (p.heading() == b[2]));
  VC_ENSURES("the default", (id.x() == 0) & (id.y() == 0) & (id.heading() == 0));
  ecl::Pose2D<double> e(b[0], b[1], b[2]);
  VC_ENSURES("made of its elements", (e.x() == b[0]) & (e.y() == b[1]) & (e.heading() == b[2]));
  VC_ENSURES("the translation", (p.translation()[0] == b[0]) & (p.translation()[1] == b[1]));
  double co = std::cos(b[2]), si = std::sin(b[2]);
  ecl::Pose2D<double>::RotationMatrix m = p.rotationMatrix();
  VC_ENSURES("the rotation", vc::real_eq(m(0, 0), co) & vc::real_eq(m(1, 1), co) & vc::real_eq(m(1, 0), si) & vc::real_eq(m(0, 1), -si));
  V3 r = ecl::concatenate_poses(b, c);
  ecl::Pose2D<double> s = p * q;
  VC_ENSURES("the product", vc::real_eq(s.x(), r[0]) & vc::real_eq(s.y(), r[1]) & vc::real_eq(s.heading(), r[2]));
  ecl::Pose2D<double> &t = p *= q;
  VC_ENSURES("multiplied by", (&t == &p) & vc::real_eq(p.x(), r[0]) & vc::real_eq(p.y(), r[1]) & vc::real_eq(p.heading(), r[2]));
}
// ---------------------------------------------------------------- poses that store a matrix or an angle
typedef ecl::LegacyPose2D<double, ecl::RotationMatrixStorage> PM;
typedef ecl::LegacyPose2D<double, ecl::RotationAngleStorage> PA;
struct Rigid { double x, y, c, s; };
template <class P> static Rigid rigid(const P &p) { typename P::RotationMatrix m = p.rotationMatrix(); Rigid r = {p.x(), p.y(), m(0, 0), m(1, 0)}; return r; }
template <class P> static bool proper(const P &p) { typename P::RotationMatrix m = p.rotationMatrix(); return vc::real_eq(m(0, 0), m(1, 1)) & vc::real_eq(m(0, 1), -m(1, 0)) & vc::real_eq(m(0, 0) * m(0, 0) + m(1, 0) * m(1, 0), 1); }
static Rigid product(const Rigid &a, const Rigid &b) { Rigid r = {a.x + a.c * b.x - a.s * b.y, a.y + a.s * b.x + a.c * b.y, a.c * b.c - a.s * b.s, a.s * b.c + a.c * b.s}; return r; }
static bool same(const Rigid &a, const Rigid &b) { return vc::real_eq(a.x, b.x) & vc::real_eq(a.y, b.y) & vc::real_eq(a.c, b.c) & vc::real_eq(a.s, b.s); }
static const Rigid ONE = {0, 0, 1, 0};
template <class P> static void legacy() {
  double ax = vc::any_double("ax"), ay = vc::any_double("ay"), ah = vc::any_double("ah"), bx = vc::any_double("bx"), by = vc::any_double("by"), bh = vc::any_double("bh");
  VC_REQUIRES(wrapped(ah)); VC_REQUIRES(wrapped(bh));
  P a(ax, ay, ah), b(bx, by, bh);
  Rigid ra = {ax, ay, std::cos(ah), std::sin(ah)}, rb = {bx, by, std::cos(bh), std::sin(bh)};
  VC_ENSURES("what a pose was made of", same(rigid(a), ra) & proper(a) & same(rigid(b), rb));
  switch (__vc_case() / 2) {
  case 0: { P p = a * b; VC_ENSURES("the product", same(rigid(p), product(ra, rb)) & proper(p)); VC_ENSURES("the operands are left alone", same(rigid(a), ra) & same(rigid(b), rb)); break; }
  case 1: { P i = a.inverse(); VC_ENSURES("a pose and its inverse", same(rigid(a * i), ONE)); VC_ENSURES("an inverse and its pose", same(rigid(i * a), ONE)); VC_ENSURES("the operand is left alone", same(rigid(a), ra)); break; }
  case 2: { P r = b.relative(a); VC_ENSURES("the relative pose of a target reaches the target", same(rigid(a * r), rb)); VC_ENSURES("the operands are left alone", same(rigid(a), ra) & same(rigid(b), rb)); break; }
  case 3: { P d, e = P::Identity(), f(a); f.setIdentity(); VC_ENSURES("identities", same(rigid(d), ONE) & same(rigid(e), ONE) & same(rigid(f), ONE)); break; }
  case 4: { P s; s.setPose(bx, by, bh); P t(a); t.x(bx); t.y(by); t.heading(bh); P u(a); u.translation(bx, by); u.rotation(ecl::Angle<double>(bh)); VC_ENSURES("setters", same(rigid(s), rb) & same(rigid(t), rb) & same(rigid(u), rb)); break; }
  case 5: { PM m(a); PA n(a); VC_ENSURES("copies in either storage", (m.x() == ax) & (m.y() == ay) & same(rigid(m), ra) & same(rigid(n), ra)); m = b; n = b; VC_ENSURES("assigned in either storage", same(rigid(m), rb) & same(rigid(n), rb)); break; }
  case 6: { double w = a.heading(); VC_ENSURES("the heading", (w <= ecl::pi + 1e-9) & (w >= -ecl::pi - 1e-9) & vc::real_eq(std::cos(w), ra.c) & vc::real_eq(std::sin(w), ra.s)); break; }
  }
}
VC_CASES(C18_legacy, 14)
VC_PROOF(C18_legacy, "ecl::LegacyPose2D<double, (ecl::Pose2DStorageType)1, void>::operator*; ecl::LegacyPose2D<double, (ecl::Pose2DStorageType)1, void>::inverse; ecl::LegacyPose2D<double, (ecl::Pose2DStorageType)0, void>::inverse") {
  if (__vc_case() & 1) legacy<PM>(); else legacy<PA>();
}
VC_PROOF(C18_legacy_multiply, "ecl::LegacyPose2D<double, (ecl::Pose2DStorageType)1, void>::operator*=") {
  double ax = vc::any_double("ax"), ay = vc::any_double("ay"), ah = vc::any_double("ah"), bx = vc::any_double("bx"), by = vc::any_double("by"), bh = vc::any_double("bh");
  VC_REQUIRES(wrapped(ah)); VC_REQUIRES(wrapped(bh));
  PM a(ax, ay, ah), b(bx, by, bh);
  Rigid ra = {ax, ay, std::cos(ah), std::sin(ah)}, rb = {bx, by, std::cos(bh), std::sin(bh)};
  PM &r = a *= b;
  VC_ENSURES("multiplied by", (&r == &a) & same(rigid(a), product(ra, rb)));
}
// ---------------------------------------------------------------- differential drive
typedef ecl::mobile_robot::DifferentialDriveKinematics Drive;
struct Base { double bias, radius; Base() : bias(vc::any_double("axis")), radius(vc::any_double("radius")) { VC_REQUIRES(bias > 0); VC_REQUIRES(radius > 0); } };
VC_PROOF(C20_rates, "ecl::mobile_robot::DifferentialDriveKinematics::baseToWheelVelocities") {
  Base k; Drive d(k.bias, k.radius);
  double v = vc::any_double("linear"), w = vc::any_double("angular");
  ecl::linear_algebra::Vector2d r = d.baseToWheelVelocities(v, w);
  VC_ENSURES("the linear velocity", vc::real_eq(k.radius * (r[0] + r[1]) / 2, v));
  VC_ENSURES("the angular velocity", vc::real_eq(k.radius * (r[1] - r[0]) / k.bias, w));
}
VC_PROOF(C20_update, "ecl::mobile_robot::DifferentialDriveKinematics::poseUpdateFromWheelDifferential; ecl::mobile_robot::DifferentialDriveKinematics::poseUpdateFromBaseDifferential") {
  Base k; Drive d(k.bias, k.radius);
  double l = vc::any_double("left"), r = vc::any_double("right"), s = vc::any_double("translation"), w = vc::any_double("rotation");
  V3 p = d.poseUpdateFromWheelDifferential(l, r);
  VC_ENSURES("rolled along the facing", vc::real_eq(p[0], k.radius * (l + r) / 2) & (p[1] == 0));
  TURNED("turned", p[2], k.radius * (r - l) / k.bias);
  V3 q = d.poseUpdateFromBaseDifferential(s, w);
  VC_ENSURES("moved along the facing", (q[0] == s) & (q[1] == 0));
  TURNED("turned by the rotation", q[2], w);
}
VC_PROOF(C20_inverse, "ecl::mobile_robot::DifferentialDriveKinematics::poseUpdateFromWheelDifferential") {
  Base k; Drive d(k.bias, k.radius);
  double v = vc::any_double("linear"), w = vc::any_double("angular");
  ecl::linear_algebra::Vector2d r = d.baseToWheelVelocities(v, w);
  V3 p = d.poseUpdateFromWheelDifferential(r[0], r[1]);
  VC_ENSURES("the rates of a velocity move as far as the velocity", vc::real_eq(p[0], v) & (p[1] == 0)); TURNED("the rates of a velocity turn as far as the velocity", p[2], w);
}
VC_PROOF(C20_differential, "ecl::mobile_robot::DifferentialDriveKinematics::PoseToBaseDifferential") {
  V3 a = any("x", "y", "h"), b; double s = vc::any_double("length"), t = vc::any_double("turn");
  VC_REQUIRES(wrapped(a[2]));
  b << a[0] + s * std::cos(a[2]), a[1] + s * std::sin(a[2]), a[2] + t;
  ecl::linear_algebra::Vector2d r = Drive::PoseToBaseDifferential(a, b);
  VC_ENSURES("the signed length of a straight drive", vc::real_eq(r[0], s));
  TURNED("the turn", r[1], t);
}
VC_PROOF(C20_distance, "ecl::mobile_robot::DifferentialDriveKinematics::PoseToBaseDifferential") {
  V3 a = any("x", "y", "h"), b = any("x'", "y'", "h'");
  VC_REQUIRES(wrapped(a[2]));
  ecl::linear_algebra::Vector2d r = Drive::PoseToBaseDifferential(a, b);
  double dx = b[0] - a[0], dy = b[1] - a[1], f = dx * std::cos(a[2]) + dy * std::sin(a[2]);
  VC_ENSURES("the distance", vc::real_eq(r[0] * r[0], dx * dx + dy * dy));
  VC_ENSURES("negative behind the facing, and only there", (r[0] < 0) == (f < 0));
  TURNED("the turn", r[1], b[2] - a[2]);
}
