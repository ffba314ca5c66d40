// Axis-aligned boxes.
#include "w.h"
#include <geomc/shape/Rect.h>
#include <geomc/linalg/Ray.h>
#include <limits>
#include <vector>
template <class T, index_t N> using PT = typename Rect<T,N>::point_t;
template <class T, index_t N> inline PT<T,N> lp(const T* a) { if constexpr (N == 1) return *a; else return Vec<T,N>(a); }
template <class T, index_t N> inline void sp(T* o, const PT<T,N>& p) { if constexpr (N == 1) *o = p; else FOR(i,N) o[i] = p[i]; }
template <class T, index_t N> inline Rect<T,N> RB(const T* a) { return Rect<T,N>(lp<T,N>(a), lp<T,N>(a + N)); }
template <class T, index_t N> inline void sr(T* o, const Rect<T,N>& r) { sp<T,N>(o, r.lo); sp<T,N>(o + N, r.hi); }
template <class T> inline T mn(T a, T b) { return a < b ? a : b; }
template <class T> inline T mx(T a, T b) { return a < b ? b : a; }
#define R1_(S) template struct S<double,1>; template struct S<double,2>; template struct S<double,3>; template struct S<double,4>; template struct S<float,2>;
#define RI_(S) template struct S<int,1>; template struct S<int,2>; template struct S<int,3>;
#define RR(S) R1_(S) RI_(S)
#define LIM(p,n) FOR(i_,n) vg_assume(p[i_] >= -1000000 && p[i_] <= 1000000);
#define SMALL(p,n) FOR(i_,n) vg_assume(p[i_] >= -1000 && p[i_] <= 1000);
#define CLOSED(a) FOR(i_,N) vg_assume(a[i_] <= a[N+i_]);
// union, intersection
TN struct Union { static void impl(const T* a, const T* b, const T* p, T* o) { auto A = RB<T,N>(a); const auto B = RB<T,N>(b); sr(o, A | B); auto C = A; sr(o+2*N, C |= B); sr(o+4*N, C); sr(o+6*N, B | lp<T,N>(p)); auto D = A; sr(o+8*N, D |= lp<T,N>(p)); sr(o+10*N, D); }
  static void spec(const T* a, const T* b, const T* p, T* o) { FOR(i,N) { FOR(k,3) { o[2*k*N+i] = mn(a[i], b[i]); o[2*k*N+N+i] = mx(a[N+i], b[N+i]); } o[6*N+i] = mn(b[i], p[i]); o[7*N+i] = mx(b[N+i], p[i]); FOR(k,2) { o[8*N+2*k*N+i] = mn(a[i], p[i]); o[9*N+2*k*N+i] = mx(a[N+i], p[i]); } } } };
RR(Union)
TN struct Inter { static void impl(const T* a, const T* b, T* o) { auto A = RB<T,N>(a), B = RB<T,N>(b); sr(o, A & B); auto C = A; sr(o+2*N, C &= B); sr(o+4*N, C); }
  static void spec(const T* a, const T* b, T* o) { FOR(i,N) FOR(k,3) { o[2*k*N+i] = mx(a[i], b[i]); o[2*k*N+N+i] = mn(a[N+i], b[N+i]); } } };
RR(Inter)
// a point is in the union's operands only if in the union; in the intersection exactly if in both
TN struct InterPt { static bool impl(const T* a, const T* b, const T* p) { return (RB<T,N>(a) & RB<T,N>(b)).contains(lp<T,N>(p)); } static bool spec(const T* a, const T* b, const T* p) { bool r = true; FOR(i,N) r = r && p[i] >= a[i] && p[i] <= a[N+i] && p[i] >= b[i] && p[i] <= b[N+i]; return r; } };
template struct InterPt<double,1>; template struct InterPt<double,2>; template struct InterPt<int,2>;
// containment
TN struct Contains { static int impl(const T* a, const T* p) { auto A = RB<T,N>(a); return (A.contains(lp<T,N>(p)) ? 1 : 0) + (Rect<T,N>::contains(A.lo, A.hi, lp<T,N>(p)) ? 2 : 0); } static int spec(const T* a, const T* p) { bool r = true; FOR(i,N) r = r && p[i] >= a[i] && p[i] <= a[N+i]; return r ? 3 : 0; } };
RR(Contains)
TN struct ContainsBox { static bool impl(const T* a, const T* b) { return RB<T,N>(a).contains(RB<T,N>(b)); } static bool spec(const T* a, const T* b) { FOR(i,N) if (b[i] < a[i] || b[N+i] > a[N+i]) return false; return true; } };
RR(ContainsBox)
// two non-empty boxes intersect if and only if they share a point
TN struct Intersects { static bool impl(const T* a, const T* b) { CLOSED(a) CLOSED(b) return RB<T,N>(a).intersects(RB<T,N>(b)); } static bool spec(const T* a, const T* b) { FOR(i,N) if (mx(a[i], b[i]) > mn(a[N+i], b[N+i])) return false; return true; } };
RR(Intersects)
TN struct Empty { static bool impl(const T* a) { return RB<T,N>(a).is_empty(); } static bool spec(const T* a) { FOR(i,N) if (a[i] > a[N+i]) return true; return false; } };
RR(Empty)
TN struct Eq { static int impl(const T* a, const T* b) { auto A = RB<T,N>(a), B = RB<T,N>(b); return (A == B) + 2*(A != B); } static int spec(const T* a, const T* b) { FOR(i,2*N) if (!(a[i] == b[i])) return 2; return 1; } };
RR(Eq)
// constants
TN struct Consts { static void impl(T* o) { sr(o, Rect<T,N>::unit_interval); sr(o+2*N, Rect<T,N>::signed_unit_interval); o[4*N] = Rect<T,N>::empty.is_empty(); o[4*N+1] = Rect<T,N>().is_empty(); o[4*N+2] = Rect<T,N>::full.is_empty(); }
  static void spec(T* o) { FOR(i,N) { o[i] = 0; o[N+i] = 1; o[2*N+i] = -1; o[3*N+i] = 1; } o[4*N] = 1; o[4*N+1] = 1; o[4*N+2] = 0; } };
RR(Consts)
TN struct FullEmpty { static int impl(const T* p) { LIM(p,N) return Rect<T,N>::full.contains(lp<T,N>(p)) + 2*Rect<T,N>::empty.contains(lp<T,N>(p)) + 4*Rect<T,N>().contains(lp<T,N>(p)); } static int spec(const T* p) { return 1; } };
RR(FullEmpty)
TN struct DefaultUnion { static void impl(const T* a, T* o) { LIM(a,2*N) sr(o, Rect<T,N>() | RB<T,N>(a)); Rect<T,N> r; r |= lp<T,N>(a); sr(o+2*N, r); } static void spec(const T* a, T* o) { FOR(i,2*N) o[i] = a[i]; FOR(i,N) o[2*N+i] = o[3*N+i] = a[i]; } };
RR(DefaultUnion)
// construction
TN struct Make { static void impl(const T* a, const T* b, T* o) { sr(o, Rect<T,N>::spanning_corners(lp<T,N>(a), lp<T,N>(b))); Rect<T,N> r; r.set_corners(lp<T,N>(a), lp<T,N>(b)); sr(o+2*N, r); sr(o+4*N, Rect<T,N>(lp<T,N>(a))); const Rect<T,N> q(lp<T,N>(a), lp<T,N>(b)); sr(o+6*N, q.abs()); sr(o+8*N, q.bounds()); }
  static void spec(const T* a, const T* b, T* o) { FOR(i,N) { T l = mn(a[i], b[i]), h = mx(a[i], b[i]); o[i] = o[2*N+i] = o[6*N+i] = l; o[N+i] = o[3*N+i] = o[7*N+i] = h; o[4*N+i] = o[5*N+i] = a[i]; o[8*N+i] = a[i]; o[9*N+i] = b[i]; } } };
RR(Make)
TN struct Seq { static void impl(const T* a, T* o) { LIM(a,3*N) PT<T,N> v[3] = { lp<T,N>(a), lp<T,N>(a+N), lp<T,N>(a+2*N) }; sr(o, Rect<T,N>::from_point_sequence(v, v+3)); } static void spec(const T* a, T* o) { FOR(i,N) { o[i] = mn(mn(a[i], a[N+i]), a[2*N+i]); o[N+i] = mx(mx(a[i], a[N+i]), a[2*N+i]); } } };
RR(Seq)
// extents: real-valued lengths of either sign
TN struct Dims { static void impl(const T* c, const T* d, T* o) { sr(o, Rect<T,N>::from_center(lp<T,N>(c), lp<T,N>(d))); sr(o+2*N, Rect<T,N>::from_corner(lp<T,N>(c), lp<T,N>(d))); sr(o+4*N, Rect<T,N>::from_size(lp<T,N>(d))); auto r = Rect<T,N>::from_corner(lp<T,N>(c), lp<T,N>(d)); sp<T,N>(o+6*N, r.center()); sp<T,N>(o+7*N, r.dimensions()); sr(o+8*N, r.centered_on(PT<T,N>(lp<T,N>(d)))); }
  static void spec(const T* c, const T* d, T* o) { FOR(i,N) { T l = d[i] < 0 ? -d[i] : d[i]; o[i] = c[i] - l/2; o[N+i] = c[i] + l/2; o[2*N+i] = mn(c[i], c[i]+d[i]); o[3*N+i] = mx(c[i], c[i]+d[i]); o[4*N+i] = -l/2; o[5*N+i] = l/2; o[6*N+i] = c[i] + d[i]/2; o[7*N+i] = l; o[8*N+i] = d[i] - l/2; o[9*N+i] = d[i] + l/2; } } };
R1_(Dims)
// integer lengths count the points, both ends included
TN struct DimsI { static void impl(const T* c, const T* d, T* o) { SMALL(c,N) FOR(i,N) vg_assume(d[i] > 0 && d[i] <= 1000); auto r = Rect<T,N>::from_corner(lp<T,N>(c), lp<T,N>(d)); sr(o, r); sp<T,N>(o+2*N, r.dimensions()); auto q = Rect<T,N>::from_center(lp<T,N>(c), lp<T,N>(d)); sp<T,N>(o+3*N, q.dimensions()); sp<T,N>(o+4*N, q.center()); }
  static void spec(const T* c, const T* d, T* o) { FOR(i,N) { o[i] = c[i]; o[N+i] = c[i] + d[i] - 1; o[2*N+i] = o[3*N+i] = d[i]; o[4*N+i] = c[i]; } } };
RI_(DimsI)
// the centre of an integer box is the middle point, the upper of two, wherever the box is
TN struct CenterI { static void impl(const T* a, T* o) { SMALL(a,2*N) CLOSED(a) auto r = RB<T,N>(a); sp<T,N>(o, r.center()); o[N] = r.contains(r.center()); } static void spec(const T* a, T* o) { FOR(i,N) o[i] = (T)std::floor((a[i] + a[N+i] + 1) / 2.0); o[N] = 1; } };
RI_(CenterI)
TN struct SetDims { static void impl(const T* a, const T* d, T* o) { CLOSED(a) auto r = RB<T,N>(a); r.set_dimensions(lp<T,N>(d)); sp<T,N>(o, r.center()); sp<T,N>(o+N, r.dimensions()); }
  static void spec(const T* a, const T* d, T* o) { FOR(i,N) { o[i] = (a[i] + a[N+i])/2; o[N+i] = d[i] < 0 ? -d[i] : d[i]; } } };
R1_(SetDims)
TN struct SetDimsI { static void impl(const T* a, const T* d, T* o) { SMALL(a,2*N) FOR(i,N) vg_assume(d[i] > 0 && d[i] <= 1000); CLOSED(a) auto r = RB<T,N>(a); r.set_dimensions(lp<T,N>(d)); sp<T,N>(o, r.center()); sp<T,N>(o+N, r.dimensions()); }
  static void spec(const T* a, const T* d, T* o) { FOR(i,N) { o[i] = (T)std::floor((a[i] + a[N+i] + 1) / 2.0); o[N+i] = d[i]; } } };
RI_(SetDimsI)
TN struct Vol { static T impl(const T* a) { return RB<T,N>(a).volume(); } static T spec(const T* a) { T v = 1, e = std::is_integral<T>::value; FOR(i,N) v *= mx<T>(a[N+i] - a[i] + e, 0); return v; } };
R1_(Vol)
TN struct VolI { static T impl(const T* a) { SMALL(a,2*N) return RB<T,N>(a).volume(); } static T spec(const T* a) { return Vol<T,N>::spec(a); } };
RI_(VolI)
// motion and scale
TN struct Move { static void impl(const T* a, const T* d, T* o) { auto A = RB<T,N>(a); auto v = lp<T,N>(d); sr(o, A + v); sr(o+2*N, A - v); auto B = A; sr(o+4*N, B += v); sr(o+6*N, B); B = A; sr(o+8*N, B -= v); sr(o+10*N, B); sr(o+12*N, A.dilated(v)); sr(o+14*N, A.minkowski_sum(Rect<T,N>(v, v))); }
  static void spec(const T* a, const T* d, T* o) { FOR(k,2) FOR(i,N) { T x = a[k*N+i]; o[k*N+i] = o[4*N+k*N+i] = o[6*N+k*N+i] = x + d[i]; o[2*N+k*N+i] = o[8*N+k*N+i] = o[10*N+k*N+i] = x - d[i]; o[12*N+k*N+i] = k ? x + d[i] : x - d[i]; o[14*N+k*N+i] = x + d[i]; } } };
RR(Move)
TN struct Scale { static void impl(const T* a, const T* d, T* o) { auto A = RB<T,N>(a); auto v = lp<T,N>(d); sr(o, A * v); auto B = A; sr(o+2*N, B *= v); sr(o+4*N, B); } static void spec(const T* a, const T* d, T* o) { FOR(k,3) FOR(i,N) { T x = a[i]*d[i], y = a[N+i]*d[i]; o[2*k*N+i] = mn(x, y); o[2*k*N+N+i] = mx(x, y); } } };
RR(Scale)
TN struct Shrink { static void impl(const T* a, const T* d, T* o) { FOR(i,N) vg_assume(d[i] != 0); auto A = RB<T,N>(a); auto v = lp<T,N>(d); sr(o, A / v); auto B = A; sr(o+2*N, B /= v); sr(o+4*N, B); } static void spec(const T* a, const T* d, T* o) { FOR(k,3) FOR(i,N) { T x = a[i]/d[i], y = a[N+i]/d[i]; o[2*k*N+i] = mn(x, y); o[2*k*N+N+i] = mx(x, y); } } };
R1_(Shrink)
// product, slices, conversions
template <class T, index_t N, index_t M> struct Prod { static void impl(const T* a, const T* b, T* o) { sr(o, RB<T,N>(a) * RB<T,M>(b)); } static void spec(const T* a, const T* b, T* o) { FOR(k,2) { FOR(i,N) o[k*(N+M)+i] = a[k*N+i]; FOR(i,M) o[k*(N+M)+N+i] = b[k*M+i]; } } };
template struct Prod<double,1,1>; template struct Prod<double,2,1>; template struct Prod<double,1,3>; template struct Prod<double,2,2>; template struct Prod<int,3,2>;
struct Slice { static void impl(const double* a, double* o) { auto r = RB<double,4>(a); sr(o, r(0, 2)); sr(o+4, r(3, 1, 0)); sr(o+10, r(2)); sr(o+12, r(3, 2, 1, 0)); FOR(k,4) sr(o+20+2*k, r.axis(k)); }
  static void spec(const double* a, double* o) { double v[] = {a[0],a[2],a[4],a[6], a[3],a[1],a[0],a[7],a[5],a[4], a[2],a[6], a[3],a[2],a[1],a[0],a[7],a[6],a[5],a[4], a[0],a[4],a[1],a[5],a[2],a[6],a[3],a[7]}; FOR(i,28) o[i] = v[i]; } };
void slice_(const double* a, double* o) { Slice::impl(a, o); Slice::spec(a, o); }
struct Casts { static void impl(const int* a, double* o) { sr(o, (Rect<double,2>)RB<int,2>(a)); } static void spec(const int* a, double* o) { FOR(i,4) o[i] = a[i]; } };
void casts_(const int* a, double* o) { Casts::impl(a, o); Casts::spec(a, o); }
// mapping to and from the unit box
TN struct Map { static void impl(const T* a, const T* s, T* o) { FOR(i,N) vg_assume(a[i] < a[N+i]); auto r = RB<T,N>(a); sp<T,N>(o, r.remap(lp<T,N>(s))); sp<T,N>(o+N, r.unmap(lp<T,N>(s))); sp<T,N>(o+2*N, r.remap(r.unmap(lp<T,N>(s)))); } static void spec(const T* a, const T* s, T* o) { FOR(i,N) { o[i] = a[i] + s[i]*(a[N+i]-a[i]); o[N+i] = (s[i]-a[i])/(a[N+i]-a[i]); o[2*N+i] = s[i]; } } };
R1_(Map)
TN struct Fit { static void impl(const T* a, const T* b, T* o) { FOR(i,N) vg_assume(a[i] < a[N+i] && b[i] < b[N+i]); auto f = RB<T,N>(a).fitted_to(RB<T,N>(b)); sr(o, f); o[2*N] = N > 2 || f.contains(RB<T,N>(b)); }
  static void spec(const T* a, const T* b, T* o) { T m = 0; FOR(i,N) m = mx(m, (b[N+i]-b[i])/(a[N+i]-a[i])); FOR(i,N) { T c = (b[i]+b[N+i])/2, h = (a[N+i]-a[i])*m/2; o[i] = c-h; o[N+i] = c+h; } o[2*N] = 1; } };
template struct Fit<double,1>; template struct Fit<double,2>; template struct Fit<double,3>;
// nearest points and distances
TN struct Clip { static void impl(const T* a, const T* p, T* o) { CLOSED(a) auto r = RB<T,N>(a); sp<T,N>(o, r.clip(lp<T,N>(p))); o[N] = r.dist2(lp<T,N>(p)); } static void spec(const T* a, const T* p, T* o) { T d = 0; FOR(i,N) { T c = p[i] < a[i] ? a[i] : p[i] > a[N+i] ? a[N+i] : p[i]; o[i] = c; d += (p[i]-c)*(p[i]-c); } o[N] = d; } };
template struct Clip<double,1>; template struct Clip<double,2>; template struct Clip<double,3>; template struct Clip<float,2>; RI_(Clip)
// outside: the clipped point; inside: the point moved to the nearest face
TN struct Project { static void impl(const T* a, const T* p, T* o) { FOR(i,N) vg_assume(a[i] < a[N+i]); auto r = RB<T,N>(a); auto P = lp<T,N>(p); auto q = r.project(P); bool in = r.contains(P); o[0] = 0; FOR(i,N) { T e = PointType<T,N>::iterator(q)[i] - p[i]; o[0] += e*e; } o[1] = r.contains(q); bool bd = false; FOR(i,N) bd = bd || PointType<T,N>::iterator(q)[i] == a[i] || PointType<T,N>::iterator(q)[i] == a[N+i]; o[2] = bd; o[3] = r.sdf(P); }
  static void spec(const T* a, const T* p, T* o) { bool in = true; T d2 = 0, face = 0; FOR(i,N) { T x = mx(a[i]-p[i], p[i]-a[N+i]); if (x > 0) { in = false; d2 += x*x; } if (i == 0 || x > face) face = x; } o[0] = in ? face*face : d2; o[1] = o[2] = 1; o[3] = in ? face : std::sqrt(d2); } };
template struct Project<double,1>; template struct Project<double,2>; template struct Project<double,3>; template struct Project<float,2>;
TN struct Support { static void impl(const T* a, const T* d, T* o) { CLOSED(a) auto p = RB<T,N>(a).convex_support(lp<T,N>(d)); T s = 0; FOR(i,N) s += PointType<T,N>::iterator(p)[i]*d[i]; o[0] = s; o[1] = RB<T,N>(a).contains(p); } static void spec(const T* a, const T* d, T* o) { T s = 0; FOR(i,N) s += mx(a[i]*d[i], a[N+i]*d[i]); o[0] = s; o[1] = 1; } };
R1_(Support)
// a ray meets a box at exactly the parameters whose points are in the box
template <index_t N> struct RayHit { static bool impl(const double* a, const double* p, const double* v, double s) { vg_assume(s >= -1000 && s <= 1000); if (N > 2) { vg_assume(v[0] > 0); vg_assume(v[1] < 0); } CLOSED(a) return RB<double,N>(a).intersect(Ray<double,N>(ld<double,N>(p), ld<double,N>(v))).contains(s); } static bool spec(const double* a, const double* p, const double* v, double s) { FOR(i,N) { double x = p[i] + s*v[i]; if (x < a[i] || x > a[N+i]) return false; } return true; } };
template struct RayHit<2>; template struct RayHit<3>;
// exclusion: per axis, what remains of one range beside the other
TN struct Minus { static void impl(const T* a, const T* b, T* o) { LIM(a,2*N) LIM(b,2*N) CLOSED(a) CLOSED(b) const auto A = RB<T,N>(a); auto B = RB<T,N>(b); auto r = A - B; o[0] = r.is_empty(); if (o[0] == 0) sr(o+1, r); else FOR(i,2*N) o[1+i] = 0; auto C = A; C -= B; o[2*N+1] = C == r; }
  static void spec(const T* a, const T* b, T* o) { T e = std::is_integral<T>::value; T r[2*N]; bool all = true, empty = false; FOR(i,N) { r[i] = a[i]; r[N+i] = a[N+i]; bool c0 = b[i] < a[i], c1 = b[N+i] > a[N+i]; all = all && c0 && c1;
    if (!c0) r[N+i] = mn(a[N+i], b[i] - e); if (!c1) r[i] = mx(a[i], b[N+i] + e); empty = empty || r[i] > r[N+i]; } empty = empty || all; o[0] = empty; FOR(i,2*N) o[1+i] = empty ? 0 : r[i]; o[2*N+1] = 1; } };
template struct Minus<double,1>; template struct Minus<double,2>; template struct Minus<int,1>; template struct Minus<int,2>;
// contact: the shortest single-axis move that separates overlapping boxes; otherwise the move that closes every gap
TN struct Contact { static void impl(const T* a, const T* b, T* o) { LIM(a,2*N) LIM(b,2*N) FOR(i,N) vg_assume(a[i] < a[N+i] && b[i] < b[N+i]); auto c = RB<T,N>(a).contact_vector(RB<T,N>(b)); o[0] = c.second; T m = 0; FOR(i,N) { T x = PointType<T,N>::iterator(c.first)[i]; m += x*x; } o[1] = m; bool ok = true; int nz = 0; FOR(i,N) { T x = PointType<T,N>::iterator(c.first)[i]; T l = a[i] + x, h = a[N+i] + x; bool touch = h == b[i] || l == b[N+i]; bool over = h >= b[i] && b[N+i] >= l; if (x != 0) nz++; ok = ok && over && (x == 0 || touch); } o[2] = ok; o[3] = c.second ? nz <= 1 : true; }
  static void spec(const T* a, const T* b, T* o) { bool all = true; T s = 0, m = 0; FOR(i,N) { bool ov = a[i] <= b[N+i] && b[i] <= a[N+i]; all = all && ov; T d0 = b[i]-a[N+i], d1 = b[N+i]-a[i]; T x = mn(d0*d0, d1*d1); if (i == 0 || x < s) s = x; if (!ov) m += x; } o[0] = all; o[1] = all ? s : m; o[2] = o[3] = 1; } };
template struct Contact<double,1>; template struct Contact<double,2>; 
// obligations that are not templates
VG_KEEP(Slice) VG_KEEP(Casts)
