// Contracts of ecl::LinearSegment (C19).
#include "vc.h"
#include <ecl_geometry/src/lib/linear_segment.cpp>

static double sq(double v) { return v * v; }
VC_PROOF(C19_distance_is_minimum, "ecl::LinearSegment::squaredDistanceFromPoint; ecl::LinearSegment::LinearSegment") {
  double x1 = vc::any_double("x1"), y1 = vc::any_double("y1"), x2 = vc::any_double("x2"), y2 = vc::any_double("y2");
  double x = vc::any_double("x"), y = vc::any_double("y"), s = vc::any_double("s");
  VC_REQUIRES(s >= 0 && s <= 1);
  ecl::LinearSegment seg(x1, y1, x2, y2);
  double d = seg.squaredDistanceFromPoint(x, y);
  double px = x1 + s * (x2 - x1), py = y1 + s * (y2 - y1);
  double ds = sq(x - px) + sq(y - py);
  VC_ENSURES("no point of the segment is nearer than the reported distance", d <= ds || vc::real_eq(d, ds));
}
VC_PROOF(C19_distance_is_attained, "ecl::LinearSegment::squaredDistanceFromPoint") {
  double x1 = vc::any_double("x1"), y1 = vc::any_double("y1"), x2 = vc::any_double("x2"), y2 = vc::any_double("y2");
  double x = vc::any_double("x"), y = vc::any_double("y");
  ecl::LinearSegment seg(x1, y1, x2, y2);
  double d = seg.squaredDistanceFromPoint(x, y);
  // witness: the projection of the point, clamped to the segment
  double l2 = sq(x2 - x1) + sq(y2 - y1), dot = (x - x1) * (x2 - x1) + (y - y1) * (y2 - y1);
  double s = 0;
  if (dot > 0) s = dot >= l2 ? 1 : dot / l2;
  double px = x1 + s * (x2 - x1), py = y1 + s * (y2 - y1);
  VC_ENSURES("the witness lies on the segment", s >= 0 && s <= 1);
  VC_ENSURES("the reported distance is attained by a point of the segment", vc::real_eq(d, sq(x - px) + sq(y - py)));
  VC_ENSURES("a squared distance is not negative", d >= 0);
}
VC_PROOF(C19_end_points, "ecl::LinearSegment::squaredDistanceFromPoint") {
  double x1 = vc::any_double("x1"), y1 = vc::any_double("y1"), x2 = vc::any_double("x2"), y2 = vc::any_double("y2");
  double x = vc::any_double("x"), y = vc::any_double("y");
  ecl::LinearSegment seg(x1, y1, x2, y2), rev(x2, y2, x1, y1);
  VC_ENSURES("both ends are at distance zero", vc::real_eq(seg.squaredDistanceFromPoint(x1, y1), 0) && vc::real_eq(seg.squaredDistanceFromPoint(x2, y2), 0));
  VC_ENSURES("the orientation of the segment does not matter", vc::real_eq(seg.squaredDistanceFromPoint(x, y), rev.squaredDistanceFromPoint(x, y)));
}
VC_PROOF(C19_line_equation, "ecl::LinearSegment::LinearSegment") {
  double x1 = vc::any_double("x1"), y1 = vc::any_double("y1"), x2 = vc::any_double("x2"), y2 = vc::any_double("y2");
  ecl::LinearSegment seg(x1, y1, x2, y2);
  VC_COVER("not vertical", x1 != x2);
  if (x1 != x2) {
    VC_ENSURES("both ends satisfy the line equation Ax+By+C=0", vc::real_eq(seg.A() * x1 + seg.B() * y1 + seg.C(), 0) && vc::real_eq(seg.A() * x2 + seg.B() * y2 + seg.C(), 0));
    VC_ENSURES("the line equation is normalised to B = 1", seg.B() == 1);
  }
}
