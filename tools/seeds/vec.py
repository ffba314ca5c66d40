VB = "geomc/linalg/vecdetail/VecBase.h"
SEED("vec-argmin-strict", "V01", [(VB, "            T x = std::abs((*this)[i]);\n            if (x < smallest) {", "            T x = std::abs((*this)[i]);\n            if ((*this)[i] < smallest) {")],
"""#include <geomc/linalg/Vec.h>
using namespace geom;
int main() { REQUIRE((Vec<double,3>(1, -5, 2).argmin()) == 0); REQUIRE((Vec<double,3>(3, 1, 2).argmin()) == 1); REQUIRE((Vec<double,3>(-3, -1, -2).argmin()) == 1); return 0; }""",
"a vector with a negative component of large magnitude", "argmin picks a large negative component")
SEED("quat-slerp-long", "Q01", [("geomc/linalg/Quaternion.h", "        if (dot < 0) { //angle is greater than 90. Avoid \"long path\" rotations.", "        if (dot < 0 and q1.w < 0) { //angle is greater than 90. Avoid \"long path\" rotations.")],
"""#include <geomc/linalg/Quaternion.h>
using namespace geom;
int main() { Quat<double> a(0.6,0,0,-0.8), b(-0.28,0,0,0.96); Quat<double> m = a.slerp(b, 1); REQUIRE(std::abs(std::abs(m.dot(b)) - 1) < 1e-6); m = a.slerp(b, 0.5); double d0 = std::abs(m.dot(a)), d1 = std::abs(m.dot(b)); REQUIRE(std::abs(d0 - d1) < 1e-6); REQUIRE(d0 > 0.9); return 0; }""",
"two orientations more than 90 degrees apart on the 3-sphere where the second has a positive real part", "slerp takes the long way round")
SEED("vec2-polar-range", "V04", [("geomc/linalg/vecdetail/Vec3.h", "@@", "@@")] if 0 else [("geomc/linalg/vecdetail/Vec2.h", "if (theta < 0)", "if (theta < 0 and this->mag2() > 1)")],
"""#include <geomc/linalg/Vec.h>
using namespace geom;
int main() { for (double k : {0.25, 1., 4.}) { Vec<double,2> p = Vec<double,2>(k, -k).to_polar(); REQUIRE(p[1] >= 0); NEAR(p[0]*std::cos(p[1]), k); NEAR(p[0]*std::sin(p[1]), -k); } return 0; }""",
"a vector shorter than 1 in the lower half plane", "the polar angle of short vectors below the axis is negative")
