// Round shapes: spheres, capsules, cylinders, dilations.
#include "w.h"
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Dilated.h>
#define D3(S) template struct S<2>; template struct S<3>;
template <index_t N> inline Vec<double,N> V(const double* a) { return ld<double,N>(a); }
template <index_t N> inline double D2(const double* a, const double* b) { double s = 0; FOR(i,N) s += (a[i]-b[i])*(a[i]-b[i]); return s; }
// ---- sphere: centre c, radius r
template <index_t N> inline Sphere<double,N> SP(const double* c, double r) { vg_assume(r > 0); return Sphere<double,N>(V<N>(c), r); }
template <index_t N> struct SphDist { static void impl(const double* c, const double* p, double r, double* o) { auto s = SP<N>(c, r); vg_assume(D2<N>(c, p) > 0); o[0] = s.sdf(V<N>(p)); o[1] = s.contains(V<N>(p)); sv(o+2, s.project(V<N>(p))); sv(o+2+N, s.normal(V<N>(p))); sv(o+2+2*N, s.clip(V<N>(p))); }
  static void spec(const double* c, const double* p, double r, double* o) { double d = std::sqrt(D2<N>(c, p)); o[0] = d - r; o[1] = d <= r; FOR(i,N) { double u = (p[i]-c[i])/d; o[2+i] = c[i] + r*u; o[2+N+i] = u; o[2+2*N+i] = d <= r ? p[i] : c[i] + r*u; } } };
D3(SphDist) template struct SphDist<4>;
template <index_t N> struct SphMake { static void impl(double r, double* o) { Sphere<double,N> s, t(r); sv(o, s.center); o[N] = s.r; sv(o+N+1, t.center); o[2*N+1] = t.r; auto b = t.bounds(); sv(o+2*N+2, b.lo); sv(o+3*N+2, b.hi); o[4*N+2] = s == s; o[4*N+3] = t == Sphere<double,N>(r + 1); } static void spec(double r, double* o) { FOR(i,N) { o[i] = o[N+1+i] = 0; o[2*N+2+i] = -r; o[3*N+2+i] = r; } o[N] = 1; o[2*N+1] = r; o[4*N+2] = 1; o[4*N+3] = 0; } };
D3(SphMake)
template <index_t N> struct SphBounds { static void impl(const double* c, double r, double* o) { auto b = SP<N>(c, r).bounds(); sv(o, b.lo); sv(o+N, b.hi); } static void spec(const double* c, double r, double* o) { FOR(i,N) { o[i] = c[i]-r; o[N+i] = c[i]+r; } } };
D3(SphBounds)
// two spheres overlap if and only if their centres are no further apart than the sum of the radii
template <index_t N> struct SphSph { static bool impl(const double* c, double r, const double* d, double q) { vg_assume(q > 0); return SP<N>(c, r).intersects(Sphere<double,N>(V<N>(d), q)); } static bool spec(const double* c, double r, const double* d, double q) { return std::sqrt(D2<N>(c, d)) <= r + q; } };
D3(SphSph)
template <index_t N> struct SphRect { static int impl(const double* c, double r, const double* l, const double* h) { FOR(i,N) vg_assume(l[i] <= h[i]); Rect<double,N> b(V<N>(l), V<N>(h)); return SP<N>(c, r).intersects(b) + 2*b.intersects(SP<N>(c, r)); } static int spec(const double* c, double r, const double* l, const double* h) { double d = 0; FOR(i,N) { double x = c[i] < l[i] ? l[i]-c[i] : c[i] > h[i] ? c[i]-h[i] : 0; d += x*x; } return d <= r*r ? 3 : 0; } };
D3(SphRect)
template <index_t N> struct SphSup { static void impl(const double* c, double r, const double* d, double* o) { vg_assume(MAG2(d, N) > 0); sv(o, SP<N>(c, r).convex_support(V<N>(d))); } static void spec(const double* c, double r, const double* d, double* o) { double m = MAG(d, N); FOR(i,N) o[i] = c[i] + r*d[i]/m; } };
D3(SphSup)
// a ray meets a sphere between the two roots of |o + s d - c| = r; a miss is the empty interval
// ---- capsule: axis from a to b, radius r
template <index_t N> inline Capsule<double,N> CP(const double* a, const double* b, double r) { vg_assume(r > 0); vg_assume(D2<N>(a, b) > 0); return Capsule<double,N>(V<N>(a), V<N>(b), r); }
template <index_t N> inline void axpt(const double* a, const double* b, const double* p, double* q) { double t = 0, m = D2<N>(a, b); FOR(i,N) t += (p[i]-a[i])*(b[i]-a[i]); t = t/m; t = t < 0 ? 0 : t > 1 ? 1 : t; FOR(i,N) q[i] = a[i] + t*(b[i]-a[i]); }
// an axis w from a, and a point at x0 along it (in units of w), x1 and x2 off it
template <index_t N> struct FR { double b[N], p[N], e[N], L2, e2, t; FR(const double* a, const double* v, const double* x) { vg_assume(v[0]*v[0] + v[1]*v[1] > 0); L2 = v[0]*v[0] + v[1]*v[1]; t = x[0]; double w[N]; FOR(i,N) w[i] = e[i] = 0; w[0] = v[0]; w[N-1] = v[1]; e[0] = -x[1]*v[1]; e[N-1] = x[1]*v[0]; e2 = x[1]*x[1]*L2; if constexpr (N == 3) { e[1] = x[2]; e2 += x[2]*x[2]; } FOR(i,N) { b[i] = a[i] + w[i]; p[i] = a[i] + t*w[i] + e[i]; } } };
#define AR const double* a, const double* v, double r
#define CUT(f) (f.t < 0 ? 0 : f.t > 1 ? 1 : f.t)
template <index_t N> struct SphRay { static void impl(AR, const double* x, double* o) { FR<N> f(a, v, x), g(a, v, x+3); double d[N]; FOR(i,N) d[i] = g.b[i] - a[i]; auto R = SP<N>(a, r).intersect(Ray<double,N>(V<N>(f.p), V<N>(d))); bool e = R.is_empty(); o[0] = e; o[1] = e ? 0 : R.lo; o[2] = e ? 0 : R.hi; }
  static void spec(AR, const double* x, double* o) { FR<N> f(a, v, x); double q = r*r - f.e2; o[0] = q < 0; double s = q < 0 ? 0 : std::sqrt(q/f.L2); o[1] = q < 0 ? 0 : -f.t - s; o[2] = q < 0 ? 0 : -f.t + s; } };
D3(SphRay)
template <index_t N> struct CapDist { static void impl(AR, const double* x, double* o) { FR<N> f(a, v, x); auto s = CP<N>(a, f.b, r); o[0] = s.sdf(V<N>(f.p)); o[1] = s.contains(V<N>(f.p)); sv(o+2, s.nearest_axis_point(V<N>(f.p))); sv(o+2+N, s.axis()); }
  static void spec(AR, const double* x, double* o) { FR<N> f(a, v, x); double c = CUT(f), d2 = (f.t-c)*(f.t-c)*f.L2 + f.e2; o[0] = std::sqrt(d2) - r; o[1] = d2 <= r*r; FOR(i,N) { o[2+i] = a[i] + c*(f.b[i]-a[i]); o[2+N+i] = f.b[i]-a[i]; } } };
D3(CapDist)
template <index_t N> struct CapProj { static void impl(AR, const double* x, double* o) { FR<N> f(a, v, x); auto s = CP<N>(a, f.b, r); double c = CUT(f); vg_assume((f.t-c)*(f.t-c)*f.L2 + f.e2 > 0); sv(o, s.project(V<N>(f.p))); sv(o+N, s.normal(V<N>(f.p))); }
  static void spec(AR, const double* x, double* o) { FR<N> f(a, v, x); double c = CUT(f), d = std::sqrt((f.t-c)*(f.t-c)*f.L2 + f.e2); FOR(i,N) { double q = a[i] + c*(f.b[i]-a[i]), n = (f.t-c)*(f.b[i]-a[i]) + f.e[i]; o[i] = q + r*n/d; o[N+i] = n/d; } } };
D3(CapProj)
template <index_t N> struct CapSph { static bool impl(AR, const double* x, double q) { FR<N> f(a, v, x); vg_assume(q > 0); return CP<N>(a, f.b, r).intersects(Sphere<double,N>(V<N>(f.p), q)); } static bool spec(AR, const double* x, double q) { FR<N> f(a, v, x); double c = CUT(f); return (f.t-c)*(f.t-c)*f.L2 + f.e2 <= (r+q)*(r+q); } };
D3(CapSph)
template <index_t N> struct CapMisc { static void impl(const double* a, const double* b, double r, double* o) { auto s = CP<N>(a, b, r); auto B = s.bounds(); sv(o+1, B.lo); sv(o+1+N, B.hi); Capsule<double,N> d; sv(o+1+2*N, d.p0); sv(o+1+3*N, d.p1); o[1+4*N] = d.radius; o[0] = s == s; }
  static void spec(const double* a, const double* b, double r, double* o) { FOR(i,N) { o[1+i] = std::min(a[i], b[i]) - r; o[1+N+i] = std::max(a[i], b[i]) + r; o[1+2*N+i] = i == 0 ? -1 : 0; o[1+3*N+i] = i == 0; } o[1+4*N] = 1; o[0] = 1; } };
D3(CapMisc)
template <index_t N> struct CapSup { static double impl(const double* a, const double* b, double r, const double* d) { vg_assume(MAG2(d, N) > 0); auto p = CP<N>(a, b, r).convex_support(V<N>(d)); double s = 0; FOR(i,N) s += p[i]*d[i]; return s; } static double spec(const double* a, const double* b, double r, const double* d) { double x = DOT(a, d, N), y = DOT(b, d, N); return (x < y ? y : x) + r*MAG(d, N); } };
D3(CapSup)
// ---- cylinder: axis from a to b, radius r.  t: position along the axis in [0, 1]; e: vector from the axis
template <index_t N> inline Cylinder<double,N> CY(const double* a, const double* b, double r) { vg_assume(r > 0); vg_assume(D2<N>(a, b) > 0); return Cylinder<double,N>(V<N>(a), V<N>(b), r); }
template <index_t N> struct CylIn { static bool impl(AR, const double* x) { FR<N> f(a, v, x); return CY<N>(a, f.b, r).contains(V<N>(f.p)); } static bool spec(AR, const double* x) { FR<N> f(a, v, x); return f.t >= 0 && f.t <= 1 && f.e2 <= r*r; } };
D3(CylIn)
template <index_t N> struct CylSdf { static double impl(AR, const double* x) { FR<N> f(a, v, x); return CY<N>(a, f.b, r).sdf(V<N>(f.p)); } static double spec(AR, const double* x) { FR<N> f(a, v, x); double L = std::sqrt(f.L2), h = (f.t < 1 - f.t ? -f.t : f.t - 1)*L, y = std::sqrt(f.e2) - r; if (h < 0 && y < 0) return h < y ? y : h; if (h < 0) h = 0; if (y < 0) y = 0; return std::sqrt(h*h + y*y); } };
D3(CylSdf)
// the nearest surface point: on the wall (k = r), on a cap (t = 0 or 1), or on a rim
template <index_t N> struct CylProj { static void impl(AR, const double* x, double* o) { FR<N> f(a, v, x); auto s = CY<N>(a, f.b, r); vg_assume(f.e2 > 0); sv(o, s.project(V<N>(f.p))); }
  static void spec(AR, const double* x, double* o) { FR<N> f(a, v, x); double e = std::sqrt(f.e2), L = std::sqrt(f.L2), t = f.t, k = e; if (t < 0 || t > 1) { t = t < 0 ? 0 : 1; k = e < r ? e : r; } else if (e < r && L*(t < 1-t ? t : 1-t) < r - e) t = t < 0.5 ? 0 : 1; else k = r; FOR(i,N) o[i] = a[i] + t*(f.b[i]-a[i]) + f.e[i]*k/e; } };
D3(CylProj)
// outside, the normal points from the surface point to p; inside, from p to it
template <index_t N> struct CylNrm { static void impl(AR, const double* x, double* o) { FR<N> f(a, v, x); auto s = CY<N>(a, f.b, r); vg_assume(f.e2 > 0); vg_assume(f.t != 0 && f.t != 1 && f.e2 != r*r); sv(o, s.normal(V<N>(f.p))); }
  static void spec(AR, const double* x, double* o) { FR<N> f(a, v, x); double e = std::sqrt(f.e2), L = std::sqrt(f.L2), t = f.t; bool out = t < 0 || t > 1; double c = t < 0 ? 0 : 1, g = (t-c)*L, h = e - r, m = std::sqrt(g*g + h*h), al, rd; if (out && e > r) { al = g/m; rd = h/m; } else if (out) { al = t < 0 ? -1 : 1; rd = 0; } else if (e < r && L*(t < 1-t ? t : 1-t) < r - e) { al = t < 0.5 ? -1 : 1; rd = 0; } else { al = 0; rd = 1; } FOR(i,N) o[i] = al*(f.b[i]-a[i])/L + rd*f.e[i]/e; } };
template struct CylNrm<2>;
// on the axis the radial direction is any perpendicular: the projection is still on the surface at the right distance
template <index_t N> struct CylAxis { static void impl(const double* a, const double* b, double r, double t, double* o) { auto s = CY<N>(a, b, r); double p[N], q[N]; FOR(i,N) p[i] = a[i] + t*(b[i]-a[i]); sv(q, s.project(V<N>(p))); o[0] = D2<N>(p, q); double x = 0; FOR(i,N) x += (q[i]-p[i])*(b[i]-a[i]); o[1] = x*x; o[2] = MAG2(&s.normal(V<N>(p))[0], N); }
  static void spec(const double* a, const double* b, double r, double t, double* o) { double L2 = D2<N>(a, b), L = std::sqrt(L2); double h = t < 1-t ? t : 1-t; bool cap = h < 0 || L*h < r; o[0] = cap ? h*h*L2 : r*r; o[1] = cap ? h*h*L2*L2 : 0; o[2] = 1; } };
template struct CylAxis<2>; template struct CylAxis<3>;
template <index_t N> struct CylBounds { static void impl(const double* a, const double* b, double r, double* o) { auto B = CY<N>(a, b, r).bounds(); sv(o, B.lo); sv(o+N, B.hi); Cylinder<double,N> c, d(r); sv(o+2*N, c.p0); sv(o+3*N, c.p1); o[4*N] = c.radius; sv(o+4*N+1, d.p0); sv(o+5*N+1, d.p1); o[6*N+1] = d.radius; } static void spec(const double* a, const double* b, double r, double* o) { double L2 = D2<N>(a, b); FOR(i,N) { double x = b[i]-a[i], w = r*std::sqrt(1 - x*x/L2); o[i] = std::min(a[i], b[i]) - w; o[N+i] = std::max(a[i], b[i]) + w; o[2*N+i] = o[4*N+1+i] = 0; o[3*N+i] = o[5*N+1+i] = i == 0; } o[4*N] = 1; o[6*N+1] = r; } };
D3(CylBounds)
template <index_t N> struct CylSup { static double impl(AR, const double* x) { double z[N]; FOR(i,N) z[i] = 0; FR<N> f(z, v, x), g(a, v, x); auto p = CY<N>(a, g.b, r).convex_support(V<N>(f.p)); double s = 0; FOR(i,N) s += (p[i]-a[i])*f.p[i]; return s; } static double spec(AR, const double* x) { FR<N> f(a, v, x); return (x[0] > 0 ? x[0]*f.L2 : 0) + r*std::sqrt(f.e2); } };
D3(CylSup)
// a ray meets a cylinder where it is within the radius of the axis and between the caps
// with the ray u = (u0,u1) in units of the axis and its normal
template <index_t N> struct CylRay { static void impl(const double* v, double r, const double* x, const double* u, double* o) { double z[N], w[N]; FOR(i,N) z[i] = 0; FR<N> f(z, v, x), g(z, v, u); vg_assume(r > 0 && u[0] != 0 && u[1] != 0); auto R = Cylinder<double,N>(V<N>(z), V<N>(f.b), r).intersect(Ray<double,N>(V<N>(f.p), V<N>(g.p))); bool e = R.is_empty(); o[0] = e; o[1] = e ? 0 : R.lo; o[2] = e ? 0 : R.hi; }
  static void spec(const double* v, double r, const double* x, const double* u, double* o) { double L = std::sqrt(v[0]*v[0] + v[1]*v[1]), h = r/L; double lo = u[1] > 0 ? (-h - x[1])/u[1] : (h - x[1])/u[1], hi = u[1] > 0 ? (h - x[1])/u[1] : (-h - x[1])/u[1], c0 = u[0] > 0 ? -x[0]/u[0] : (1 - x[0])/u[0], c1 = u[0] > 0 ? (1 - x[0])/u[0] : -x[0]/u[0]; if (c0 > lo) lo = c0; if (c1 < hi) hi = c1; bool e = lo > hi; o[0] = e; o[1] = e ? 0 : lo; o[2] = e ? 0 : hi; } };
template struct CylRay<2>;
// a ray along a cylinder of axis z, or square to it
struct CylRayZ { static void impl(double h, double r, const double* p, const double* d, double* o) { vg_assume(h > 0 && r > 0); vg_assume(d[0] != 0 || d[1] != 0 || d[2] != 0); Cylinder<double,3> c(Vec<double,3>(0, 0, 0), Vec<double,3>(0, 0, h), r); auto R = c.intersect(Ray<double,3>(V<3>(p), V<3>(d))); bool e = R.is_empty(); o[0] = e; o[1] = e ? 0 : R.lo; o[2] = e ? 0 : R.hi; }
  static void spec(double h, double r, const double* p, const double* d, double* o) { double A = d[0]*d[0] + d[1]*d[1], B = p[0]*d[0] + p[1]*d[1], C = p[0]*p[0] + p[1]*p[1] - r*r; double lo, hi; bool e = false, wall = false; if (A != 0) { double q = B*B - A*C; if (q < 0) e = true; double s = e ? 0 : std::sqrt(q); lo = (-B-s)/A; hi = (-B+s)/A; wall = true; } else if (C > 0) e = true; else lo = hi = 0; if (!e) { if (d[2] != 0) { double c0 = -p[2]/d[2], c1 = (h-p[2])/d[2]; if (c0 > c1) { double t = c0; c0 = c1; c1 = t; } if (!wall) { lo = c0; hi = c1; } else { if (c0 > lo) lo = c0; if (c1 < hi) hi = c1; } if (lo > hi) e = true; } else if (p[2] < 0 || p[2] > h) e = true; } o[0] = e; o[1] = e ? 0 : lo; o[2] = e ? 0 : hi; } };
// K = 0: square to the axis; 2: along it.  The origin is given in the frame of the direction
template <int K> struct CylRayQ { static void frame(const double* p, const double* d, double* q, double* e) { if (K == 0) vg_assume(d[0] != 0); FOR(i,3) { e[i] = (K == 2) == (i == 2) ? d[i] : 0; q[i] = p[i]; } if (K != 2) { q[0] = p[0]*d[0] - p[1]*d[1]; q[1] = p[0]*d[1] + p[1]*d[0]; } }
  static void impl(double h, double r, const double* p, const double* d, double* o) { double q[3], e[3]; frame(p, d, q, e); CylRayZ::impl(h, r, q, e, o); }
  static void spec(double h, double r, const double* p, const double* d, double* o) { double q[3], e[3]; frame(p, d, q, e); CylRayZ::spec(h, r, q, e, o); } };
template struct CylRayQ<0>; template struct CylRayQ<2>;
// ---- dilations: of a sphere, of a capsule, of a box, of a plane
template <index_t N> struct Dil { static void impl(AR, double k, const double* x, double* o) { vg_assume(k >= 0); FR<N> f(a, v, x); auto c = CP<N>(a, f.b, r); auto d = dilate(c, k); Vec<double,N> P = V<N>(f.p); o[0] = d.sdf(P); o[1] = d.contains(P); auto B = d.bounds(); sv(o+2, B.lo); sv(o+2+N, B.hi); double q = CUT(f), e = (f.t-q)*(f.t-q)*f.L2 + f.e2; vg_assume(e > 0 && e != r*r); sv(o+2+2*N, d.project(P)); sv(o+2+3*N, d.normal(P)); o[2+4*N] = dilate(d, k).sdf(P); }
  static void spec(AR, double k, const double* x, double* o) { FR<N> f(a, v, x); double c = CUT(f), e = std::sqrt((f.t-c)*(f.t-c)*f.L2 + f.e2); o[0] = e - r - k; o[1] = e <= r + k; FOR(i,N) { o[2+i] = std::min(a[i], f.b[i]) - r - k; o[2+N+i] = std::max(a[i], f.b[i]) + r + k; double q = a[i] + c*(f.b[i]-a[i]), n = (f.t-c)*(f.b[i]-a[i]) + f.e[i]; o[2+2*N+i] = q + (r+k)*n/e; o[2+3*N+i] = n/e; } o[2+4*N] = e - r - 2*k; } };
template struct Dil<2>;
struct DilS { static void impl(const double* c, double r, double k, const double* p, double* o) { vg_assume(k >= 0); auto s = SP<3>(c, r); auto d = dilate(s, k); sv(o, d.center); o[3] = d.r; Dilated<Sphere<double,3>> w(s), x(s, k); o[4] = w.sdf(V<3>(p)); o[5] = x.sdf(V<3>(p)); Dilated<Sphere<double,3>> z; o[6] = z.dilation; o[7] = x == w; } static void spec(const double* c, double r, double k, const double* p, double* o) { FOR(i,3) o[i] = c[i]; o[3] = r + k; double d = std::sqrt(D2<3>(c, p)); o[4] = d - r; o[5] = d - r - k; o[6] = 0; o[7] = k == 0; } };
// dilation by a negative amount (an erosion) clamps at a point or the undilated shape; dilating a dilated shape adds up
struct DilNeg { static void impl(const double* c, double r, double k, double m, double* o) { vg_assume(r >= 0); auto s = SP<3>(c, r); auto d = dilate(s, k); sv(o, d.center); o[3] = d.r; auto e = dilate(Rect<double,2>(Vec<double,2>(c), Vec<double,2>(c)), k); o[4] = e.dilation; auto f = dilate(e, m); o[5] = f.dilation; sv(o+6, f.shape.lo); Plane<double,3> p; p.normal = Vec<double,3>(c); p.d = r; auto q = dilate(p, k); o[8] = q.d; sv(o+9, q.normal); }
  static void spec(const double* c, double r, double k, double m, double* o) { vg_assume(r >= 0); FOR(i,3) o[i] = o[9+i] = c[i]; o[3] = r + k > 0 ? r + k : 0; o[4] = k > 0 ? k : 0; o[5] = o[4] + m > 0 ? o[4] + m : 0; o[6] = c[0]; o[7] = c[1]; o[8] = r - k; } }; 
void dilneg_(const double* c, double r, double k, double m, double* o) { DilNeg::impl(c, r, k, m, o); DilNeg::spec(c, r, k, m, o); }
void dils_(const double* c, double r, double k, const double* p, double* o) { DilS::impl(c, r, k, p, o); DilS::spec(c, r, k, p, o); }
template <index_t N> struct DilSup { static void impl(const double* l, const double* h, double k, const double* d, double* o) { FOR(i,N) vg_assume(l[i] <= h[i]); vg_assume(k >= 0); vg_assume(MAG2(d, N) > 0); Rect<double,N> R(V<N>(l), V<N>(h)); auto D = dilate(R, k); auto p = D.convex_support(V<N>(d)); double s = 0; FOR(i,N) s += p[i]*d[i]; o[0] = s; auto b = D.bounds(); sv(o+1, b.lo); sv(o+1+N, b.hi); } static void spec(const double* l, const double* h, double k, const double* d, double* o) { double s = 0; FOR(i,N) s += d[i] < 0 ? l[i]*d[i] : h[i]*d[i]; o[0] = s + k*MAG(d, N); FOR(i,N) { o[1+i] = l[i]-k; o[1+N+i] = h[i]+k; } } };
D3(DilSup)
template <index_t N> struct RoundRect { static void impl(const double* l, const double* h, double k, double* o) { FOR(i,N) vg_assume(l[i] < h[i]); vg_assume(k >= 0); auto D = roundrect(Rect<double,N>(V<N>(l), V<N>(h)), k); auto b = D.bounds(); sv(o, b.lo); sv(o+N, b.hi); o[2*N] = D.dilation; o[2*N+1] = D.shape.is_empty(); } static void spec(const double* l, const double* h, double k, double* o) { double m = k; FOR(i,N) { o[i] = l[i]; o[N+i] = h[i]; double w = (h[i]-l[i])/2; if (w < m) m = w; } o[2*N] = m; o[2*N+1] = 0; } };
D3(RoundRect)
// obligations that are not templates
VG_KEEP(CylRayZ) VG_KEEP(DilS) VG_KEEP(DilNeg)
