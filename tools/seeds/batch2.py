SEED("deque-move-assign-wrapped", "C02", [("geomc/Deque.h", "            // if we have space for more than N, that's fine too.\n            _head = 0;", "            // if we have space for more than N, that's fine too.\n            if (other._size > 0 and _capacity <= N) _head = 0;")],
"""#include <geomc/Deque.h>
using namespace geom;
int main() { Deque<int,4> a, b; for (int i = 0; i < 6; ++i) a.push_back(i); for (int i = 0; i < 7; ++i) { a.pop_front(); a.push_back(10 + i); }
for (int i = 0; i < 3; ++i) b.push_back(100 + i);
a = std::move(b); REQUIRE(a.size() == 3); REQUIRE(a[0] == 100 and a[1] == 101 and a[2] == 102); REQUIRE(a.front() == 100); return 0; }""",
"move-assigning a small deque onto one which has a heap buffer and whose head has moved", "the moved items are constructed at the start of the buffer but read from the old head")
SEED("small-resize-leak", "C01", [("geomc/SmallStorage.h", "            for (size_t i = count; i < _size; ++i) {", "            for (size_t i = count; i < std::min(_size, _capacity - (count == 0)); ++i) {")],
"""#include <algorithm>
#include <geomc/SmallStorage.h>
using namespace geom;
int live = 0;
struct C { int v; C(int v = 0): v(v) { live++; } C(const C& o): v(o.v) { live++; } C(C&& o): v(o.v) { live++; } ~C() { live--; } C& operator=(const C&) = default; };
int main() { { SmallStorage<C,4> s; for (int i = 0; i < 3; ++i) s.push_back(C(i)); s.resize(0); REQUIRE(live == 0); for (int i = 0; i < 4; ++i) s.push_back(C(i)); s.resize(2); REQUIRE(live == 2); for (int i = 0; i < 2; ++i) s.push_back(C(i)); s.resize(0); REQUIRE(live == 0); } REQUIRE(live == 0); return 0; }""",
"an array filled to exactly its capacity and shrunk to nothing by resize()", "the last element is never destroyed")
SEED("plu-pivot-sign", "L01", [("geomc/linalg/LUDecomp.h", "            T pvt_val = std::abs(mx.elem(p,i));", "            T pvt_val = mx.elem(p,i);")],
"""#include <geomc/linalg/LUDecomp.h>
using namespace geom;
int main() { double a[4] = {0, 1, -1, 0}; double x[2] = {3, 5}; REQUIRE((linear_solve<double,true>(a, 2, 1, x))); NEAR(x[0], -5); NEAR(x[1], 3); return 0; }""",
"an invertible matrix where a diagonal entry is zero and the entries below it are negative", "an invertible system is reported singular")
SEED("cylinder-ray-cross", "S02", [("geomc/shape/Cylinder.h", "        } else if (s < 0 or s > 1) {", "        } else if (s < 0 or x2 > radius * radius + a2) {")],
"""#include <geomc/shape/Cylinder.h>
using namespace geom;
int main() { Cylinder<double,3> c(Vec<double,3>(0,0,0), Vec<double,3>(0,0,2), 1); Ray<double,3> r(Vec<double,3>(-5,0,2.1), Vec<double,3>(1,0,0)); auto i = c.intersect(r); REQUIRE(i.is_empty()); r.origin[2] = 1; i = c.intersect(r); NEAR(i.lo, 4); NEAR(i.hi, 6); return 0; }""",
"a ray perpendicular to the axis, just beyond the far cap", "a ray which misses the cylinder is reported to hit it")
SEED("capsule-support-origin", "S02", [("geomc/shape/Capsule.h", "        point_t p = d.dot(axis) >= 0 ? p1 : p0;", "        point_t p = d.dot(axis) >= 0 or d.dot(p1) > radius + d.dot(p0) + d.mag2() ? p1 : p0;")] if 0 else [("geomc/shape/Capsule.h", "        T frac = v.dot(axis) / axis.mag2();\n        return p0", "        T frac = v.dot(axis) / std::max<T>(axis.mag2(), radius * radius);\n        return p0")],
"""#include <geomc/shape/Capsule.h>
using namespace geom;
int main() { for (double r : {0.5, 3.}) { Capsule<double,3> c(Vec<double,3>(0,0,0), Vec<double,3>(2,0,0), r); Vec<double,3> p = c.nearest_axis_point(Vec<double,3>(1.5, 7, 0)); NEAR(p[0], 1.5); NEAR(p[1], 0); p = c.project(Vec<double,3>(1.5, 7, 0)); NEAR(p[0], 1.5); NEAR(p[1], r); } return 0; }""",
"a capsule whose radius is larger than its axis is long", "the nearest axis point, the projection and the normal are off")
SEED("mirror-sample-int", "F04", [("geomc/function/functiondetail/RasterDetail.h", "        return ((cyc & 1) == 0)?(i):(max-i);", "        return ((cyc % 4 == 1) == 0)?(i):(max-i);")],
"""#include <geomc/function/Raster.h>
using namespace geom;
int main() { double d[4] = {1, 2, 5, 9}; Raster<double,double,1,1> r(4, d); for (int i = -20; i <= 20; ++i) { int k = ((i % 6) + 6) % 6; double e = d[k <= 3 ? k : 6 - k]; NEAR(r.sample_discrete<EDGE_MIRROR>(i), e); NEAR(r.sample_discrete(i, EDGE_MIRROR), e); } return 0; }""",
"a mirrored sample more than three extents from the origin", "mirrored sampling repeats instead of mirroring in every fourth period")
SEED("grid-distance", "I01", [("geomc/shape/GridIterator.h", "        return other.pt - pt;", "        return std::max<T>(other.pt, region.lo) - pt;")] if 0 else [("geomc/shape/GridIterator.h", "                i != dim_end and --(pt[i]) < region.lo[i];", "                i != dim_end and --(pt[i]) < std::min<T>(region.lo[i], region.hi[i] - 1);")],
"""#include <geomc/linalg/Matrix.h>
#include <geomc/shape/GridIterator.h>
using namespace geom;
int main() { Rect<index_t,2> r(Vec<index_t,2>(0,0), Vec<index_t,2>(0,3)); GridIterator<index_t,2> g(r); auto e = g.end(); int n = 0; while (e != g) { --e; ++n; REQUIRE(r.contains(*e)); REQUIRE(n < 100); } REQUIRE(n == 4); return 0; }""",
"walking backward over a region one cell thick", "decrement leaves the region")
SEED("simplex-measure-flat", "S05", [("geomc/shape/Simplex.h", "            if (n == 3) return (pts[1] - pts[0]).cross(pts[2] - pts[0]).mag() / 2;", "            if (n == 3) return (pts[1] - pts[0]).cross(pts[2]).mag() / 2;")],
"""#include <geomc/shape/Simplex.h>
#include <geomc/GeomException.cpp>
using namespace geom;
int main() { Simplex<double,3> s({Vec<double,3>(1,1,1), Vec<double,3>(3,1,1), Vec<double,3>(1,4,1)}); NEAR(s.measure(), 3); return 0; }""",
"a triangle in space not touching the origin", "the area depends on where the triangle is")
SEED("random-bool-refill", "P02", [("geomc/random/Random.cpp", "    int bit = _bitpool & 1;", "    int bit = (_bitpool >> (_bitsleft == 32 ? 31 : 0)) & 1;")],
"""#include <geomc/random/Random.h>
#include <geomc/random/Random.cpp>
struct F : geom::Random { uint32_t v; int n = 0; F(uint32_t v): v(v) {} uint32_t rand32() override { n++; return v; } void rseed(uint64_t) override {} };
int main() { F f(0x80000000u); int ones = 0; for (int i = 0; i < 32; ++i) ones += f.rand<bool>(); REQUIRE(f.n == 1); REQUIRE(ones == 1); return 0; }""",
"the first bit drawn from each fresh word", "the top bit of each word is used twice and the lowest not at all, so the bits of a draw are correlated")
