// A ray's range over a capsule, whatever the ranges over a ball and a cylinder are (those two are decided in S02.cpp and left uninterpreted here).
#include "vg.h"
#include "w.h"
#include <geomc/shape/Capsule.h>
using namespace geom;
template <index_t N> inline Vec<double,N> V(const double* a) { return ld<double,N>(a); }
extern "C" double vgu_sph(double c0, double c1, double r, double p0, double p1, double d0, double d1, double end);
extern "C" double vgu_cyl(double a0, double a1, double b0, double b1, double r, double p0, double p1, double d0, double d1, double end);
namespace geom {
template <> Rect<double,1> Sphere<double,2>::intersect(const Ray<double,2>& y) const { auto f = [&](double e) { double v = vgu_sph(center[0], center[1], r, y.origin[0], y.origin[1], y.direction[0], y.direction[1], e); vg_assume(v > -1e300 && v < 1e300); return v; }; return Rect<double,1>(f(0), f(1)); }
template <> Rect<double,1> Cylinder<double,2>::intersect(const Ray<double,2>& y) const { auto f = [&](double e) { double v = vgu_cyl(p0[0], p0[1], p1[0], p1[1], radius, y.origin[0], y.origin[1], y.direction[0], y.direction[1], e); vg_assume(v > -1e300 && v < 1e300); return v; }; return Rect<double,1>(f(0), f(1)); }
}
// a ray is inside a capsule over the hull of its overlaps with the two end balls and the cylinder between them
template <index_t N> struct CapRay { static void get(Rect<double,1> R, double* o) { bool e = R.is_empty(); o[0] = e; o[1] = e ? 0 : R.lo; o[2] = e ? 0 : R.hi; }
  static void impl(const double* a, const double* b, double r, const double* p, const double* d, double* o) { get(Capsule<double,N>(V<N>(a), V<N>(b), r).intersect(Ray<double,N>(V<N>(p), V<N>(d))), o); }
  static void spec(const double* a, const double* b, double r, const double* p, const double* d, double* o) { Ray<double,N> y(V<N>(p), V<N>(d)); Rect<double,1> s = Sphere<double,N>(V<N>(a), r).intersect(y), t = Sphere<double,N>(V<N>(b), r).intersect(y), c; bool in[3] = { !s.is_empty(), !t.is_empty(), false }; bool flat = true; FOR(i,N) if (a[i] != b[i]) flat = false; if (!flat) { c = Cylinder<double,N>(V<N>(a), V<N>(b), r).intersect(y); in[2] = !c.is_empty(); }
    double lo[3] = {s.lo, t.lo, c.lo}, hi[3] = {s.hi, t.hi, c.hi}; double L = 1.7976931348623157e308, H = -L; FOR(i,3) if (in[i]) { L = std::min(L, lo[i]); H = std::max(H, hi[i]); } o[0] = L > H; o[1] = L > H ? 0 : L; o[2] = L > H ? 0 : H; } };
template struct CapRay<2>;
