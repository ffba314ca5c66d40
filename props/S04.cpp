// Extrusions and frustums of an arbitrary base shape (its methods are uninterpreted functions of the point).
#include "w.h"
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Oriented.h>
extern "C" { bool vgu_in(double, double, double); double vgu_sdf(double, double, double); double vgu_px(double, double, double); double vgu_py(double, double, double); double vgu_nx(double, double, double); double vgu_ny(double, double, double);
  double vgu_sx(double, double, double); double vgu_sy(double, double, double); double vgu_lo(double, double, double, double, double); double vgu_hi(double, double, double, double, double);
  double vgu_bx0(double); double vgu_by0(double); double vgu_bx1(double); double vgu_by1(double); }
typedef Vec<double,2> V2; typedef Vec<double,3> V3;
struct Op { typedef double elem_t; static constexpr size_t N = 2; double k = 7; Op() {} Op(double k):k(k) {}
  bool contains(V2 p) const { return vgu_in(k, p.x, p.y); } double sdf(V2 p) const { return vgu_sdf(k, p.x, p.y); } V2 project(V2 p) const { return V2(vgu_px(k, p.x, p.y), vgu_py(k, p.x, p.y)); }
  V2 normal(V2 p) const { return V2(vgu_nx(k, p.x, p.y), vgu_ny(k, p.x, p.y)); } V2 convex_support(V2 d) const { return V2(vgu_sx(k, d.x, d.y), vgu_sy(k, d.x, d.y)); }
  Rect<double,1> intersect(const Ray<double,2>& r) const { return Rect<double,1>(vgu_lo(k, r.origin.x, r.origin.y, r.direction.x, r.direction.y), vgu_hi(k, r.origin.x, r.origin.y, r.direction.x, r.direction.y)); }
  Rect<double,2> bounds() const { return Rect<double,2>(V2(vgu_bx0(k), vgu_by0(k)), V2(vgu_bx1(k), vgu_by1(k))); } bool operator==(const Op& o) const { return k == o.k; } };
inline double mx(double a, double b) { return a > b ? a : b; }
inline double mn(double a, double b) { return a < b ? a : b; }
inline double ab(double a) { return a < 0 ? -a : a; }
template <class T> struct ExMake { static void impl(const T* a, T* o) { auto e = extrude(Op(a[0]), a[1], a[2]); o[0] = e.base.k; o[1] = e.height.lo; o[2] = e.height.hi; Extruded<Op> d(Op(a[0]), Rect<T,1>(a[1],a[2])); o[3] = d.base.k; o[4] = d.height.lo; o[5] = d.height.hi; Extruded<Op> u(Op{a[0]}); o[6] = u.base.k; o[7] = u.height.lo; o[8] = u.height.hi; Extruded<Op> z; o[9] = z.height.lo; o[10] = z.height.hi; o[11] = e == d; o[12] = d == d; Extruded<Op> f(Op(a[3]), Rect<T,1>(a[4],a[5])); o[13] = d == f;
    auto g = frustum(Op(a[0]), a[1], a[2]); o[14] = g.base.k; o[15] = g.height.lo; o[16] = g.height.hi; Frustum<Op> h(Op(a[0]), Rect<T,1>(a[1],a[2])); o[17] = h.base.k; o[18] = h.height.lo; o[19] = h.height.hi; Frustum<Op> y; o[20] = y.height.lo; o[21] = y.height.hi; Frustum<Op> q(Op(a[3]), Rect<T,1>(a[4],a[5])); o[22] = h == q; }
  static void spec(const T* a, T* o) { T l = mn(a[1],a[2]), h = mx(a[1],a[2]); o[0] = a[0]; o[1] = l; o[2] = h; o[3] = a[0]; o[4] = a[1]; o[5] = a[2]; o[6] = a[0]; o[7] = 0; o[8] = 1; o[9] = 0; o[10] = 1; o[11] = a[1] <= a[2]; o[12] = 1; bool same = a[0] == a[3] & a[1] == a[4] & a[2] == a[5]; bool e2 = false; o[13] = same | e2; o[14] = a[0]; o[15] = l; o[16] = h; o[17] = a[0]; o[18] = a[1]; o[19] = a[2]; o[20] = 0; o[21] = 1; o[22] = same | e2; } };
template struct ExMake<double>;
#define EX(a) Extruded<Op> e(Op(a[3]), Rect<double,1>(a[4],a[5])); V3 p(a[0],a[1],a[2])
#define PRE(a) vg_assume(a[4] <= a[5])
#define B(f,a) f(a[3],a[0],a[1])
template <int K> struct ExContains { static bool impl(const double* a) { EX(a); return e.contains(p); } static bool spec(const double* a) { return (a[4] <= a[2]) & (a[2] <= a[5]) & B(vgu_in,a); } };
template struct ExContains<0>;
// what the base shape answers at the point below or above p: its signed distance d, and the normal there (c, s); projecting goes back along the normal
struct At { typedef double elem_t; static constexpr size_t N = 2; const double* a; At() {} At(const double* a):a(a) {} bool at(V2 p) const { return p.x == a[0] & p.y == a[1]; } double c() const { return (1 - a[7]*a[7])/(1 + a[7]*a[7]); } double s() const { return 2*a[7]/(1 + a[7]*a[7]); }
  bool contains(V2 p) const { return at(p) ? a[6] <= 0 : vgu_in(0, p.x, p.y); } double sdf(V2 p) const { return at(p) ? a[6] : vgu_sdf(0, p.x, p.y); } V2 project(V2 p) const { return at(p) ? V2(p.x - a[6]*c(), p.y - a[6]*s()) : V2(vgu_px(0, p.x, p.y), vgu_py(0, p.x, p.y)); }
  V2 normal(V2 p) const { return at(p) ? V2(c(), s()) : V2(vgu_nx(0, p.x, p.y), vgu_ny(0, p.x, p.y)); } V2 convex_support(V2 d) const { return d; } Rect<double,1> intersect(const Ray<double,2>& r) const { return Rect<double,1>(); }
  Rect<double,2> bounds() const { return Rect<double,2>(V2(a[0], a[1]), V2(a[6], a[7])); } bool operator==(const At& o) const { return a == o.a; } };
#undef EX
#define EX(a) Extruded<At> e(At(a), Rect<double,1>(a[4],a[5])); V3 p(a[0],a[1],a[2])
template <int K> struct ExSdf { static double impl(const double* a) { PRE(a); EX(a); return e.sdf(p); } static double spec(const double* a) { PRE(a); double b = a[6], s = mx(a[4] - a[2], a[2] - a[5]); if (mx(b, s) <= 0) return mx(b, s); if (b <= 0) return s; if (s <= 0) return b; return std::sqrt(b*b + s*s); } };
template struct ExSdf<0>;
// away from where two surfaces are equally near
inline void generic(const double* a) { PRE(a); vg_assume(a[6] != 0); vg_assume(a[2] != a[4]); vg_assume(a[2] != a[5]); vg_assume(2*a[2] != a[4] + a[5]); vg_assume(mx(a[4]-a[2],a[2]-a[5]) != a[6]); }
template <int K> struct ExNormal { static void impl(const double* a, double* o) { generic(a); EX(a); sv(o, e.normal(p)); }
  static void spec(const double* a, double* o) { double d = a[6], s = mx(a[4] - a[2], a[2] - a[5]), up = 2*a[2] > a[4] + a[5] ? 1 : -1, x = At(a).c(), y = At(a).s();
    if (d > 0 & s > 0) { double m = std::sqrt(d*d + s*s); o[0] = d*x/m; o[1] = d*y/m; o[2] = up*s/m; } else if (d > s) { o[0] = x; o[1] = y; o[2] = 0; } else { o[0] = 0; o[1] = 0; o[2] = up; } } };
template struct ExNormal<0>;
template <int K> struct ExProject { static void impl(const double* a, double* o) { generic(a); EX(a); sv(o, e.project(p)); }
  static void spec(const double* a, double* o) { double d = a[6], s = mx(a[4] - a[2], a[2] - a[5]); double cap = 2*a[2] > a[4] + a[5] ? a[5] : a[4]; o[0] = a[0]; o[1] = a[1]; o[2] = a[2];
    if (d > 0 | d > s) { o[0] = a[0] - d*At(a).c(); o[1] = a[1] - d*At(a).s(); } if (s > 0 | s > d) o[2] = cap; } };
template struct ExProject<0>;
#undef EX
#define EX(a) Extruded<Op> e(Op(a[3]), Rect<double,1>(a[4],a[5])); V3 p(a[0],a[1],a[2])
template <int K> struct ExSupport { static void impl(const double* a, double* o) { PRE(a); EX(a); sv(o, e.convex_support(p)); auto b = e.bounds(); o[3] = b.lo[0]; o[4] = b.lo[1]; o[5] = b.lo[2]; o[6] = b.hi[0]; o[7] = b.hi[1]; o[8] = b.hi[2]; }
  static void spec(const double* a, double* o) { bool z = a[0] == 0 & a[1] == 0; o[0] = z ? vgu_sx(a[3],1,0) : B(vgu_sx,a); o[1] = z ? vgu_sy(a[3],1,0) : B(vgu_sy,a); o[2] = a[2] > 0 ? a[5] : a[4]; o[3] = vgu_bx0(a[3]); o[4] = vgu_by0(a[3]); o[5] = a[4]; o[6] = vgu_bx1(a[3]); o[7] = vgu_by1(a[3]); o[8] = a[5]; } };
template struct ExSupport<0>;
// s lies in the range exactly when the point of the ray does: over the base's range and between the caps
template <int K> struct ExRay { static bool impl(const double* a, const double* d, double s) { PRE(a); double l = vgu_lo(a[3],a[0],a[1],d[0],d[1]), h = vgu_hi(a[3],a[0],a[1],d[0],d[1]); vg_assume(l <= h); EX(a); auto r = e.intersect(Ray<double,3>(p, V3(d))); return r.lo <= s & s <= r.hi; }
  static bool spec(const double* a, const double* d, double s) { double l = vgu_lo(a[3],a[0],a[1],d[0],d[1]), h = vgu_hi(a[3],a[0],a[1],d[0],d[1]); double z = a[2] + s*d[2]; bool b = d[0] == 0 & d[1] == 0 ? B(vgu_in,a) : (l <= s) & (s <= h); return b & (a[4] <= z) & (z <= a[5]); } };
template struct ExRay<0>;
// ---- frustums
#define FR(a) Frustum<Op> e(Op(a[3]), Rect<double,1>(a[4],a[5])); V3 p(a[0],a[1],a[2])
#define LO(a) (a[4] < 0 & a[5] > 0 ? 0 : a[4])
template <int K> struct FrContains { static bool impl(const double* a) { PRE(a); FR(a); return e.contains(p); } static bool spec(const double* a) { PRE(a); double z = a[2]; bool h = (LO(a) <= z) & (z <= a[5]); if (z == 0) return h & (a[0] == 0) & (a[1] == 0); return h & vgu_in(a[3], a[0]/z, a[1]/z); } };
template struct FrContains<0>;
template <int K> struct FrHeight { static void impl(const double* a, double* o) { PRE(a); FR(a); auto h = e.clipped_height(); o[0] = h.lo; o[1] = h.hi; } static void spec(const double* a, double* o) { o[0] = LO(a); o[1] = a[5]; } };
template struct FrHeight<0>;
template <int K> struct FrSupport { static void impl(const double* a, double* o) { PRE(a); FR(a); sv(o, e.convex_support(p)); }
  static void spec(const double* a, double* o) { double l = LO(a), h = a[5], g = l < 0 ? -1 : 1, x = g*a[0], y = g*a[1]; bool z = a[0] == 0 & a[1] == 0; double u = z ? vgu_sx(a[3],1,0) : vgu_sx(a[3],x,y), v = z ? vgu_sy(a[3],1,0) : vgu_sy(a[3],x,y); double m = u*a[0] + v*a[1] + a[2]; double t = l*m > h*m ? l : h; if (m == 0) t = l; o[0] = t*u; o[1] = t*v; o[2] = t; } };
template struct FrSupport<0>;
// (by the signs of the ends)
template <int K> struct FrBounds { static void pre(const double* a) { PRE(a); vg_assume(a[0] <= a[6]); vg_assume(a[1] <= a[7]); if (K < 2) vg_assume(a[5] <= 0); else if (K < 4) vg_assume(a[4] >= 0); else vg_assume(a[4] < 0 & a[5] > 0); if (K & 1) vg_assume(a[0] >= 0); else vg_assume(a[0] < 0); }
  static void impl(const double* a, double* o) { pre(a); Frustum<At> e(At(a), Rect<double,1>(a[4],a[5])); auto b = e.bounds(); sv(o, b.lo); sv(o+3, b.hi); }
  static void spec(const double* a, double* o) { double l = LO(a), h = a[5]; FOR(i,2) { double x0 = a[i], x1 = a[6+i]; if (h > 0) { o[i] = x0 < 0 ? h*x0 : l*x0; o[3+i] = x1 < 0 ? l*x1 : h*x1; } else { o[i] = x1 < 0 ? h*x1 : l*x1; o[3+i] = x0 < 0 ? l*x0 : h*x0; } } o[2] = l; o[5] = h; } };
template struct FrBounds<0>; template struct FrBounds<1>; template struct FrBounds<2>; template struct FrBounds<3>; template struct FrBounds<4>; template struct FrBounds<5>;
// ---- rays over a frustum whose base is the strip lo <= x <= hi, on either side of the tip
struct Strip { typedef double elem_t; static constexpr size_t N = 2; double lo, hi; Strip() {} Strip(double a, double b):lo(a),hi(b) {} bool contains(V2 p) const { return lo <= p.x & p.x <= hi; }
  Rect<double,1> intersect(const Ray<double,2>& r) const { double a = (lo - r.origin.x)/r.direction.x, b = (hi - r.origin.x)/r.direction.x; return a < b ? Rect<double,1>(a, b) : Rect<double,1>(b, a); } V2 convex_support(V2 d) const { return d; } Rect<double,2> bounds() const { return Rect<double,2>(); } };
// whether a point of the ray (parameter s) is held
inline bool held(const double* o, const double* d, double s, double lo, double hi, double h0, double h1) { double x = o[0] + s*d[0], z = o[2] + s*d[2]; return (z >= h0) & (z <= h1) & (z > 0 ? (lo*z <= x & x <= hi*z) : z < 0 ? (lo*z >= x & x >= hi*z) : false); }
template <int K, int Y, int S> struct FrRay { static void pre(const double* a, const double* d, double s) { if (S & 1) vg_assume(d[2] > 0); else vg_assume(d[2] < 0); if (S & 2) vg_assume(a[0]*d[2] > a[2]*d[0]); else vg_assume(a[0]*d[2] < a[2]*d[0]); if (S & 4) vg_assume(d[0] > 2*d[2]); else vg_assume(d[0] < 2*d[2]); if (S & 8) vg_assume(d[0] > -d[2]); else vg_assume(d[0] < -d[2]); vg_assume(s < std::numeric_limits<double>::max() & s > std::numeric_limits<double>::lowest()); }
  static bool impl(const double* a, const double* d, double s) { pre(a, d, s); double y = Y == 1 ? 3 : Y == 2 ? a[1] : 0, e = Y == 1 ? 1 : Y == 2 ? d[1] : 0; Frustum<Strip> f(Strip(-1, 2), K ? -3 : 1, K ? -1 : 3); auto r = f.intersect(Ray<double,3>(V3(a[0],y,a[2]), V3(d[0],e,d[2]))); return r.lo <= s & s <= r.hi; }
  static bool spec(const double* a, const double* d, double s) { pre(a, d, s); return held(a, d, s, -1, 2, K ? -3 : 1, K ? -1 : 3); } };
#define FR_(K,Y) template struct FrRay<K,Y,0>; template struct FrRay<K,Y,1>; template struct FrRay<K,Y,2>; template struct FrRay<K,Y,3>; template struct FrRay<K,Y,4>; template struct FrRay<K,Y,5>; template struct FrRay<K,Y,6>; template struct FrRay<K,Y,7>; template struct FrRay<K,Y,8>; template struct FrRay<K,Y,9>; template struct FrRay<K,Y,10>; template struct FrRay<K,Y,11>; template struct FrRay<K,Y,12>; template struct FrRay<K,Y,13>; template struct FrRay<K,Y,14>; template struct FrRay<K,Y,15>;
FR_(0,0) FR_(1,0)
// off the plane of the axis: by direction
static constexpr double DIR[8][3] = {{1,1,1}, {0,1,1}, {0,0,1}, {1,2,0}, {-1,3,0}, {3,1,-1}, {-3,2,1}, {0,1,-1}};
template <int K, int D, int S> struct FrRayD { static void pre(const double* a, double s) { const double* d = DIR[D]; if (S) vg_assume(a[0]*d[2] > a[2]*d[0]); else vg_assume(a[0]*d[2] < a[2]*d[0]); vg_assume(s < std::numeric_limits<double>::max() & s > std::numeric_limits<double>::lowest()); }
  static bool impl(const double* a, double s) { pre(a, s); Frustum<Strip> f(Strip(-1, 2), K ? -3 : 1, K ? -1 : 3); auto r = f.intersect(Ray<double,3>(V3(a), V3(DIR[D]))); return r.lo <= s & s <= r.hi; }
  static bool spec(const double* a, double s) { pre(a, s); return held(a, DIR[D], s, -1, 2, K ? -3 : 1, K ? -1 : 3); } };
#define FD_(K) template struct FrRayD<K,0,0>; template struct FrRayD<K,0,1>; template struct FrRayD<K,1,0>; template struct FrRayD<K,1,1>; template struct FrRayD<K,2,0>; template struct FrRayD<K,2,1>; template struct FrRayD<K,3,0>; template struct FrRayD<K,3,1>; template struct FrRayD<K,4,0>; template struct FrRayD<K,4,1>; template struct FrRayD<K,5,0>; template struct FrRayD<K,5,1>; template struct FrRayD<K,6,0>; template struct FrRayD<K,6,1>; template struct FrRayD<K,7,0>; template struct FrRayD<K,7,1>;
FD_(0) FD_(1)
// through the tip, and in its plane
template <int K> struct FrTip { static void impl(const double* a, double s, double* o) { vg_assume(a[2] != 0); double t = a[3]; Frustum<Op> f(Op(2), K ? -3 : 0, K ? -1 : 3); auto r = f.intersect(Ray<double,3>(V3(t*a[0],t*a[1],t*a[2]), V3(a))); o[0] = r.lo <= s & s <= r.hi; }
  static void spec(const double* a, double s, double* o) { double z = (s + a[3])*a[2], h0 = K ? -3 : 0, h1 = K ? -1 : 3; bool in = vgu_in(2, a[0]/a[2], a[1]/a[2]); o[0] = (z >= h0) & (z <= h1) & (in | z == 0); } };
template struct FrTip<0>; template struct FrTip<1>;
template <int K> struct FrPlane { static void impl(const double* a, double s, double* o) { vg_assume(a[2] != 0 | a[3] != 0); Frustum<Op> f(Op(2), K ? -3 : 0, K ? -1 : 3); auto r = f.intersect(Ray<double,3>(V3(a[0],a[1],0), V3(a[2],a[3],0))); o[0] = r.lo <= s & s <= r.hi; }
  static void spec(const double* a, double s, double* o) { vg_assume(a[2] != 0 | a[3] != 0); o[0] = K == 0 & (a[0] + s*a[2] == 0) & (a[1] + s*a[3] == 0); } };
template struct FrPlane<0>; template struct FrPlane<1>;
