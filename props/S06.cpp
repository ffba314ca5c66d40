// Nearest points of simplexes: the variational inequality (p - q).(v - q) <= 0 at every vertex v, for q in the simplex,
// holds only for the nearest point; inside, the nearest facet decides.
#include "w.h"
#include <geomc/shape/Simplex.h>
template <index_t N> inline Vec<double,N> V(const double* a) { return ld<double,N>(a); }
template <index_t N> inline Simplex<double,N> SX(const double* a, index_t n) { Vec<double,N> v[N+1]; FOR(i,n) v[i] = V<N>(a + i*N); return Simplex<double,N>(v, n); }
// concrete simplexes: acute, obtuse, right, inverted, slivers
static constexpr double T2[10][6] = {{0,0, 4,0, 2,3}, {0,0, 5,0, -2,1}, {1,1, 1,4, 5,1}, {0,0, 1,3, 8,-1}, {-3,2, 4,1, 3,-1}, {2,2, -2,3, 0,-1}, /* edges of rational length: */ {0,0, 4,0, 4,3}, {0,0, 14,0, 5,12}, {0,0, 4,0, -5,12}, {0,0, 42,56, -33,56}};
static constexpr double T3[10][12] = {{0,0,0, 4,0,0, 2,3,0, 2,1,3}, {0,0,0, 1,0,0, 0,1,0, 0,0,1}, {0,0,0, 5,0,0, -2,1,0, 1,-1,2}, {1,2,3, 5,2,1, -3,4,2, 2,-6,8}, {0,0,1, 2,1,1, -1,2,0, 3,3,-2}, {1,0,0, 0,0,0, 0,0,2, 0,1,0}, /* facets of rational normals: */ {0,0,0, 2,0,0, 0,1,0, 0,0,1}, {2,-38,16, 2,-4,-1, -10,22,-10, 2,13,-1}, {-21,-28,28, 14,-58,-22, 14,182,-182, 14,42,28}, {11,29,3, 161,-21,378, 21,-21,-42, -189,-21,-147}};
template <index_t N> constexpr const double* TAB(int q) { if constexpr (N == 2) return T2[q]; else return T3[q]; }
// coordinates of x along the edges of the simplex v (least squares), by the normal equations
template <index_t N, index_t n> inline void coords(const double* v, const double* x, double* w) { constexpr index_t m = n-1; double g[3][3], b[3]; FOR(i,m) { b[i] = 0; FOR(k,N) b[i] += (v[(i+1)*N+k] - v[k]) * (x[k] - v[k]); FOR(j,m) { g[i][j] = 0; FOR(k,N) g[i][j] += (v[(i+1)*N+k] - v[k]) * (v[(j+1)*N+k] - v[k]); } }
  if constexpr (m == 1) w[1] = b[0]/g[0][0]; if constexpr (m == 2) { double d = g[0][0]*g[1][1] - g[0][1]*g[1][0]; w[1] = (b[0]*g[1][1] - g[0][1]*b[1])/d; w[2] = (g[0][0]*b[1] - b[0]*g[1][0])/d; }
  if constexpr (m == 3) { auto det = [&](auto c0, auto c1, auto c2) { return c0[0]*(c1[1]*c2[2] - c1[2]*c2[1]) - c1[0]*(c0[1]*c2[2] - c0[2]*c2[1]) + c2[0]*(c0[1]*c1[2] - c0[2]*c1[1]); }; double d = det(g[0], g[1], g[2]); w[1] = det(b, g[1], g[2])/d; w[2] = det(g[0], b, g[2])/d; w[3] = det(g[0], g[1], b)/d; }
  w[0] = 1; FOR(i,m) w[0] -= w[i+1]; }
// which vertices a reported face has (bits), or a bit beyond them if one of its points is no vertex
template <index_t N, index_t n> inline index_t members(const double* v, const Simplex<double,N>& f) { index_t s = 0; FOR(i,f.n) { index_t h = 16; FOR(j,n) { bool e = true; FOR(k,N) e = e && f.pts[i][k] == v[j*N+k]; if (e) h = index_t(1) << j; } s |= h; } return s; }
// ---- clip: in the simplex, and nearest
template <index_t N, index_t n, int Q> struct Clip { static void impl(const double* p, double* o) { const double* v = TAB<N>(Q); auto s = SX<N>(v, n); Simplex<double,N> f; auto q = s.clip(V<N>(p), &f); double x[N], w[4], r[N]; FOR(i,N) { x[i] = q[i]; r[i] = x[i]; } coords<N,n>(v, x, w); FOR(j,n) o[j] = w[j] >= 0; FOR(i,N) { double y = 0; FOR(j,n) y += w[j]*v[j*N+i]; r[i] -= y; } FOR(i,N) o[4+i] = r[i];
   FOR(j,n) { double d = 0; FOR(i,N) d += (p[i] - x[i])*(v[j*N+i] - x[i]); o[8+j] = d <= 0; } index_t m = members<N,n>(v, f); o[12] = m < 16; FOR(j,n) o[13+j] = (m >> j & 1) || w[j] == 0; FOR(i,N) o[18+i] = s.clip(V<N>(p))[i] - x[i]; }
  static void spec(const double* p, double* o) { FOR(j,n) o[j] = 1; FOR(i,N) o[4+i] = 0; FOR(j,n) o[8+j] = 1; o[12] = 1; FOR(j,n) o[13+j] = 1; FOR(i,N) o[18+i] = 0; } };
#define QS(S,N,n) template struct S<N,n,0>; template struct S<N,n,1>; template struct S<N,n,2>; template struct S<N,n,3>; template struct S<N,n,4>; template struct S<N,n,5>;
QS(Clip,2,1) QS(Clip,2,2) QS(Clip,2,3) QS(Clip,3,1) QS(Clip,3,2) QS(Clip,3,3)
// tetrahedra, by which of the facets the point is in front of (M)
inline void facet(const double* v, index_t i, double* n, double& k) { const double *a = v + (i == 0 ? 3 : 0), *b = v + (i <= 1 ? 6 : 3), *c = v + (i <= 2 ? 9 : 6), *o = v + 3*i; double e[3], f[3]; FOR(j,3) { e[j] = b[j] - a[j]; f[j] = c[j] - a[j]; } FOR(j,3) n[j] = e[(j+1)%3]*f[(j+2)%3] - e[(j+2)%3]*f[(j+1)%3]; double s = 0; FOR(j,3) s += n[j]*(o[j] - a[j]); if (s > 0) FOR(j,3) n[j] = -n[j]; k = 0; FOR(j,3) k += n[j]*a[j]; }
inline void front(const double* v, const double* p, index_t M) { FOR(i,4) { double n[3], k; facet(v, i, n, k); double d = -k; FOR(j,3) d += n[j]*p[j]; if (M >> i & 1) vg_assume(d >= 0); else vg_assume(d < 0); } }
template <int Q, index_t M> struct ClipTet { static void impl(const double* p, double* o) { front(T3[Q], p, M); Clip<3,4,Q>::impl(p, o); } static void spec(const double* p, double* o) { Clip<3,4,Q>::spec(p, o); } };
#define MS(S,Q) template struct S<Q,0>; template struct S<Q,1>; template struct S<Q,2>; template struct S<Q,3>; template struct S<Q,4>; template struct S<Q,5>; template struct S<Q,6>; template struct S<Q,7>; template struct S<Q,8>; template struct S<Q,9>; template struct S<Q,10>; template struct S<Q,11>; template struct S<Q,12>; template struct S<Q,13>; template struct S<Q,14>;
MS(ClipTet,1)
MS(ClipTet,3)
#ifdef THOROUGH
MS(ClipTet,0) MS(ClipTet,2) MS(ClipTet,4) MS(ClipTet,5)
#endif
// ---- surface distance, direction and projection
template <index_t N> inline void plane(const double* v, index_t i, const double* p, double* n, double& d, double& m2) { double k; if constexpr (N == 3) facet(v, i, n, k); else { const double *a = v + (i == 0 ? 2 : 0), *b = v + (i == 2 ? 2 : 4), *o = v + 2*i; n[0] = b[1] - a[1]; n[1] = a[0] - b[0]; if (n[0]*(o[0]-a[0]) + n[1]*(o[1]-a[1]) > 0) { n[0] = -n[0]; n[1] = -n[1]; } k = n[0]*a[0] + n[1]*a[1]; } d = -k; m2 = 0; FOR(j,N) { d += n[j]*p[j]; m2 += n[j]*n[j]; } }
// inside: the nearest facet's plane
template <index_t N, int Q> struct Inside { static void pre(const double* p) { FOR(i,N+1) { double n[N], d, m; plane<N>(TAB<N>(Q), i, p, n, d, m); vg_assume(d < 0); } }
  static void impl(const double* p, double* o) { pre(p); const double* v = TAB<N>(Q); auto s = SX<N>(v, N+1); Vec<double,N> u, P = V<N>(p); double D = s.sdf(P); o[0] = D; s.sdf(P, &u); auto q = s.normal(P); Simplex<double,N> f; auto r = s.project(P, &f); double m = 0, c = 0, e = 0; FOR(j,N) { m += q[j]*q[j]; e += (u[j]-q[j])*(u[j]-q[j]); c += (P[j] - D*q[j] - r[j])*(P[j] - D*q[j] - r[j]); } o[1] = m; o[2] = c; o[3] = e; o[4] = f.n; sv(o+5, s.clip(P)); o[8] = s.contains(P); }
  static void spec(const double* p, double* o) { const double* v = TAB<N>(Q); double b = 0; FOR(i,N+1) { double n[N], d, m; plane<N>(v, i, p, n, d, m); d /= std::sqrt(m); b = i ? (d > b ? d : b) : d; } o[0] = b; o[1] = 1; o[2] = o[3] = 0; o[4] = N; FOR(j,N) o[5+j] = p[j]; o[8] = 1; } };
template struct Inside<2,6>; template struct Inside<2,7>; template struct Inside<2,8>; template struct Inside<2,9>; template struct Inside<3,6>; template struct Inside<3,7>; template struct Inside<3,8>; template struct Inside<3,9>;
// outside (or for a simplex without an inside): the distance to the nearest point
template <index_t N, index_t n, int Q, index_t M> struct Outside { static void pre(const double* p) { if (n == N+1) FOR(i,N+1) { double u[N], d, m; plane<N>(TAB<N>(Q), i, p, u, d, m); if (M >> i & 1) vg_assume(d > 0); else vg_assume(d < 0); } }
  static void impl(const double* p, double* o) { pre(p); auto s = SX<N>(TAB<N>(Q), n); auto P = V<N>(p); o[0] = s.sdf(P); auto r = s.project(P); sv(o+1, r); auto u = s.normal(P); double m = 0; FOR(j,N) m += (p[j]-r[j])*(p[j]-r[j]); vg_assume(m > 0); double c = 0, e = 0; FOR(j,N) { c += u[j]*(p[j]-r[j]); e += u[j]*u[j]; } o[4] = e; o[5] = c > 0 ? c*c : 0; }
  static void spec(const double* p, double* o) { auto s = SX<N>(TAB<N>(Q), n); auto q = s.clip(V<N>(p)); double d = 0; FOR(j,N) d += (p[j]-q[j])*(p[j]-q[j]); o[0] = std::sqrt(d); sv(o+1, q); o[4] = 1; o[5] = d; } };
#define OQ(N,n,M) template struct Outside<N,n,0,M>; template struct Outside<N,n,1,M>; template struct Outside<N,n,2,M>; template struct Outside<N,n,3,M>; template struct Outside<N,n,4,M>; template struct Outside<N,n,5,M>;
OQ(2,1,0) OQ(2,2,0) OQ(3,1,0) OQ(3,2,0) OQ(3,3,0) OQ(2,3,1) OQ(2,3,2) OQ(2,3,3) OQ(2,3,4) OQ(2,3,5) OQ(2,3,6)
