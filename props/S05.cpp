// Simplexes: barycentric coordinates decide containment, volume, facing, and tracing.
#include "w.h"
#include "perm.h"
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Intersect.h>
template <index_t N> inline Vec<double,N> V(const double* a) { return ld<double,N>(a); }
template <index_t N> inline Simplex<double,N> SX(const double* a, index_t n) { Vec<double,N> v[N+1]; FOR(i,n) v[i] = V<N>(a + i*N); return Simplex<double,N>(v, n); }
// determinant of the edge vectors
template <index_t N> inline double vol(const double* a) { double e[N][N]; FOR(i,N) FOR(j,N) e[i][j] = a[(i+1)*N+j] - a[j]; if constexpr (N == 1) return e[0][0]; else if constexpr (N == 2) return e[0][0]*e[1][1] - e[0][1]*e[1][0]; else return e[0][0]*(e[1][1]*e[2][2] - e[1][2]*e[2][1]) - e[0][1]*(e[1][0]*e[2][2] - e[1][2]*e[2][0]) + e[0][2]*(e[1][0]*e[2][1] - e[1][1]*e[2][0]); }
// point of barycentric coordinates w[1..n-1] (the first one completes them)
template <index_t N> inline void bary(const double* a, const double* w, index_t n, double* p) { FOR(j,N) { p[j] = a[j]; for (index_t i = 1; i < n; ++i) p[j] += w[i-1]*(a[i*N+j] - a[j]); } }
inline bool inside(const double* w, index_t n) { double s = 0; bool b = true; FOR(i,n-1) { b = b & (w[i] >= 0); s += w[i]; } return b & (s <= 1); }
// ---- containment
// the course Gaussian elimination takes (one case per order of pivots): rows p[0], p[1], ... hold the largest remaining entry
inline double ab(double x) { return x < 0 ? -x : x; }
template <int K, index_t N, index_t M = N> inline void course(double* A) { const index_t* p = PT<K,N>::t.p; FOR(i,M) { double a = A[p[i]*N+i]; vg_assume(a != 0); for (index_t j = i+1; j < N; ++j) vg_assume(ab(a) > ab(A[p[j]*N+i])); for (index_t j = i+1; j < N; ++j) { double b = A[p[j]*N+i] / a; for (index_t c = i+1; c < N; ++c) A[p[j]*N+c] -= b * A[p[i]*N+c]; } } }
template <int K, index_t N> struct Contains { static bool impl(const double* a, const double* w) { double A[(N+1)*(N+1)]; FOR(c,N+1) { A[c] = 1; FOR(r,N) A[(r+1)*(N+1)+c] = a[c*N+r]; } course<K,N+1>(A); double p[N]; bary<N>(a, w, N+1, p); return SX<N>(a, N+1).contains(V<N>(p)); } static bool spec(const double* a, const double* w) { return inside(w, N+1); } };
template struct Contains<0,2>; template struct Contains<1,2>; template struct Contains<2,2>; template struct Contains<3,2>; template struct Contains<4,2>; template struct Contains<5,2>;
// solid shapes of all kinds of orders of pivots in three dimensions
static constexpr double TET[8][12] = {{0,0,0, 1,0,0, 0,1,0, 0,0,1}, {1,2,3, 5,2,1, -3,4,2, 2,-6,8}, {0,0,0, 4,0,0, 5,1,0, 6,1,1}, {-2,-1,0, -1,3,2, 4,-4,1, 0,1,-5}, {0,0,2, 3,0,0, 0,-3,0, -8,9,1}, {10,1,0, 0,10,1, 1,0,10, 3,3,3}, {0.5,0.25,0, 0.125,0.5,0.5, 0,0,-0.75, -0.5,0.25,0.125}, {1,0,0, 0,0,0, 0,0,1, 0,1,0}};
template <int Q> struct Contains3 { static bool impl(const double* w) { double p[3]; bary<3>(TET[Q], w, 4, p); return SX<3>(TET[Q], 4).contains(V<3>(p)); } static bool spec(const double* w) { return inside(w, 4); } };
template struct Contains3<0>; template struct Contains3<1>; template struct Contains3<2>; template struct Contains3<3>; template struct Contains3<4>; template struct Contains3<5>; template struct Contains3<6>; template struct Contains3<7>;
template <index_t N> struct ContainsLess { static void impl(const double* a, const double* p, double* o) { FOR(n,N+1) o[n] = SX<N>(a, n).contains(V<N>(p)); } static void spec(const double* a, const double* p, double* o) { FOR(n,N+1) o[n] = 0; } };
template struct ContainsLess<2>; template struct ContainsLess<3>;
template <int K> struct ContainsFlat { static bool impl(const double* v, double c, const double* p) { double a[6]; FOR(i,4) a[i] = v[i]; FOR(i,2) a[4+i] = a[i] + c*(a[2+i] - a[i]); double A[9]; FOR(c,3) { A[c] = 1; FOR(r,2) A[(r+1)*3+c] = a[c*2+r]; } course<K,3,2>(A); return SX<2>(a, 3).contains(V<2>(p)); } static bool spec(const double* v, double c, const double* p) { return false; } };
template struct ContainsFlat<0>; template struct ContainsFlat<1>; template struct ContainsFlat<2>; template struct ContainsFlat<3>; template struct ContainsFlat<4>; template struct ContainsFlat<5>;
// ---- size
template <index_t N> struct Volume { static void impl(const double* a, double* o) { auto s = SX<N>(a, N+1); o[0] = s.volume(); o[1] = s.measure(); FOR(n,N+1) o[2+n] = SX<N>(a, n).volume(); } static void spec(const double* a, double* o) { double v = vol<N>(a); if (N == 2) v /= 2; if (N == 3) v /= 6; o[0] = v; o[1] = v < 0 ? -v : v; FOR(n,N+1) o[2+n] = 0; } };
template struct Volume<2>; template struct Volume<3>;
template <index_t N, index_t n> struct Measure { static double impl(const double* a) { return SX<N>(a, n).measure(); } static double spec(const double* a) { if (n < 2) return 0; double g[3][3]; FOR(i,n-1) FOR(j,n-1) { g[i][j] = 0; FOR(k,N) g[i][j] += (a[(i+1)*N+k] - a[k]) * (a[(j+1)*N+k] - a[k]); } if (n == 2) return std::sqrt(g[0][0]); if (n == 3) { double d = 0; FOR(i,N) FOR(j,i) { double m = (a[N+i]-a[i])*(a[2*N+j]-a[j]) - (a[N+j]-a[j])*(a[2*N+i]-a[i]); d += m*m; } return std::sqrt(d) / 2; } return -1; } };
template struct Measure<2,0>; template struct Measure<2,1>; template struct Measure<2,2>; template struct Measure<3,1>; template struct Measure<3,2>; template struct Measure<3,3>; template struct Measure<4,2>;
// a triangle in four dimensions (in a frame of its own)
template <int K> struct Measure43 { static double impl(const double* a) { double v[12] = {1,2,3,4, 1+a[0],2+a[1],3,4, 1+a[2],2,3,4+a[3]}; return SX<4>(v, 3).measure(); } static double spec(const double* a) { double x = a[0]*a[3], y = a[1]*a[3], z = a[1]*a[2]; return std::sqrt(x*x + y*y + z*z) / 2; } };
template struct Measure43<0>;

// ---- rays
// full simplex: the parameters of the points whose barycentric coordinates all lie in [0, 1]
template <index_t N> struct Ray_ { static bool impl(const double* a, const double* w, const double* k, double s) { vg_assume(vol<N>(a) != 0); double p[N], d[N]; bary<N>(a, w, N+1, p); bary<N>(a, k, N+1, d); FOR(j,N) d[j] -= a[j]; auto R = SX<N>(a, N+1).intersect(Ray<double,N>(V<N>(p), V<N>(d))); return R.lo <= s && s <= R.hi; } static bool spec(const double* a, const double* w, const double* k, double s) { double u[N]; FOR(i,N) u[i] = w[i] + s*k[i]; return inside(u, N+1); } };
template struct Ray_<2>;
// in three dimensions: directions along a face or an edge, from anywhere (M: which of the direction's weights change)
template <int M> struct Ray3 { static void w2(const double* k, double* u) { index_t n = 0; FOR(i,3) u[i] = M >> i & 1 ? k[n++] : 0; } static bool impl(const double* a, const double* w, const double* k, double s) { double u[3]; w2(k, u); return Ray_<3>::impl(a, w, u, s); } static bool spec(const double* a, const double* w, const double* k, double s) { double u[3]; w2(k, u); return Ray_<3>::spec(a, w, u, s); } };
template struct Ray3<0>; template struct Ray3<1>; template struct Ray3<2>; template struct Ray3<3>; template struct Ray3<4>; template struct Ray3<5>; template struct Ray3<6>;

// a facet: the parameter at which the ray crosses it
template <index_t N> struct Trace { static double area(const double* a, const double* d) { double e[N*N+N]; FOR(j,N) e[j] = a[j]; FOR(j,N) e[N*N+j] = a[j] + d[j]; for (index_t i = 1; i < N; ++i) FOR(j,N) e[i*N+j] = a[i*N+j]; return vol<N>(e); }
  static void impl(const double* a, const double* w, const double* d, double s, double* o) { vg_assume(area(a, d) != 0); double p[N]; bary<N>(a, w, N, p); FOR(j,N) p[j] -= s*d[j]; Vec<double,N> v[N]; FOR(i,N) v[i] = V<N>(a + i*N); Ray<double,N> ray(V<N>(p), V<N>(d)); Vec<double,N-1> uv; double t = 0; bool h = trace_simplex<double,N>(v, ray, &uv, &t); o[0] = h; o[1] = h ? t : 0; FOR(i,N-1) o[2+i] = h ? ((double*)&uv)[i] : 0; t = 0; bool g = trace_simplex<double,N>(v, ray, nullptr, &t); o[N+1] = g; o[N+2] = g ? t : 0; auto R = SX<N>(a, N).intersect(ray); bool x = R.lo <= R.hi; o[N+3] = x; o[N+4] = x ? R.lo : 0; o[N+5] = x ? R.hi : 0; }
  static void spec(const double* a, const double* w, const double* d, double s, double* o) { bool h = inside(w, N); o[0] = o[N+1] = o[N+3] = h; o[1] = o[N+2] = o[N+4] = o[N+5] = h ? s : 0; FOR(i,N-1) o[2+i] = h ? w[i] : 0; } };
template struct Trace<2>; template struct Trace<3>;
template <index_t N> struct TracePar { static bool impl(const double* a, const double* p, const double* d) { vg_assume(Trace<N>::area(a, d) == 0); auto R = SX<N>(a, N).intersect(Ray<double,N>(V<N>(p), V<N>(d))); return R.lo <= R.hi; } static bool spec(const double* a, const double* p, const double* d) { return false; } };
template struct TracePar<2>; template struct TracePar<3>;
template <index_t N> struct RayLess { static void impl(const double* a, const double* p, const double* d, double* o) { FOR(n,N) { auto R = SX<N>(a, n).intersect(Ray<double,N>(V<N>(p), V<N>(d))); o[n] = R.lo <= R.hi; } } static void spec(const double* a, const double* p, const double* d, double* o) { FOR(n,N) o[n] = 0; } };
template struct RayLess<2>; template struct RayLess<3>;
// ---- facing: coordinates of the orthogonal projection
template <index_t N, index_t n> struct Facing { static void pt(const double* a, const double* w, const double* q, double* p) { bary<N>(a, w, n, p); double e[3], f[3], c[3]; FOR(j,3) e[j] = f[j] = 0; FOR(j,N) e[j] = a[N+j] - a[j];
    double m = 0; FOR(j,N) m += e[j]*e[j]; vg_assume(m > 0);
    if (n == 2 && N == 2) { c[0] = -e[1]*q[0]; c[1] = e[0]*q[0]; } else { FOR(j,N) f[j] = n == 2 ? q[j] : a[2*N+j] - a[j]; c[0] = e[1]*f[2] - e[2]*f[1]; c[1] = e[2]*f[0] - e[0]*f[2]; c[2] = e[0]*f[1] - e[1]*f[0]; if (n == 3) { double z = 0; FOR(j,N) z += c[j]*c[j]; vg_assume(z > 0); FOR(j,3) c[j] *= q[0]; } } if (n <= N) FOR(j,N) p[j] += c[j]; else vg_assume(vol<N>(a) != 0); }
  static void impl(const double* a, const double* w, const double* q, double* o) { double p[N]; pt(a, w, q, p); Vec<double,N> u; auto s = SX<N>(a, n); bool b = s.is_facing(V<N>(p), &u); o[0] = b; o[1] = s.is_facing(V<N>(p)); FOR(i,n-1) o[2+i] = b ? u[i] : 0; } static void spec(const double* a, const double* w, const double* q, double* o) { double p[N]; pt(a, w, q, p); bool b = inside(w, n); o[0] = o[1] = b; FOR(i,n-1) o[2+i] = b ? w[i] : 0; } };
template struct Facing<2,2>; template struct Facing<2,3>; template struct Facing<3,2>; template struct Facing<3,3>; template struct Facing<3,4>;
template <index_t N> struct Facing01 { static void impl(const double* a, const double* p, double* o) { o[0] = SX<N>(a, 0).is_facing(V<N>(p)); o[1] = SX<N>(a, 1).is_facing(V<N>(p)); } static void spec(const double* a, const double* p, double* o) { o[0] = 0; o[1] = 1; } };
template struct Facing01<2>; template struct Facing01<3>;
// ---- support
template <index_t N, index_t n> struct Support { static void impl(const double* a, const double* d, double* o) { auto p = SX<N>(a, n).convex_support(V<N>(d)); double k = 0; FOR(j,N) k += p[j]*d[j]; o[0] = k; bool b = false; FOR(i,n) { bool e = true; FOR(j,N) e = e & (p[j] == a[i*N+j]); b = b | e; } o[1] = b; } static void spec(const double* a, const double* d, double* o) { double m = DOT(a, d, N); for (index_t i = 1; i < n; ++i) { double k = DOT(a + i*N, d, N); m = k > m ? k : m; } o[0] = m; o[1] = 1; } };
template struct Support<2,1>; template struct Support<2,2>; template struct Support<2,3>; template struct Support<3,3>; template struct Support<3,4>;
template <index_t N, index_t n> struct Bounds { static void impl(const double* a, double* o) { auto b = SX<N>(a, n).bounds(); sv(o, b.lo); sv(o+N, b.hi); } static void spec(const double* a, double* o) { FOR(j,N) { double l = a[j], h = a[j]; for (index_t i = 1; i < n; ++i) { l = std::min(l, a[i*N+j]); h = std::max(h, a[i*N+j]); } o[j] = l; o[N+j] = h; } } };
template struct Bounds<2,1>; template struct Bounds<2,3>; template struct Bounds<3,2>; template struct Bounds<3,4>;
// ---- the vertex list
template <index_t N, index_t n> struct List { static constexpr index_t M = N*(N+1)+1; static void put(double* o, const Simplex<double,N>& s) { o[0] = s.n; FOR(i,N+1) FOR(j,N) o[1+i*N+j] = i < s.n ? s[i][j] : 0; } 
  static void impl(const double* a, const double* p, double* o) { FOR(i,22*M) o[i] = 0; auto s = SX<N>(a, n); put(o, s); put(o+M, s | V<N>(p)); auto t = s; t |= V<N>(p); put(o+2*M, t); t = s; t.insert(V<N>(p)); put(o+3*M, t); FOR(k,n) { put(o+(4+2*k)*M, s.excluded(k)); t = s; t.exclude(k); put(o+(5+2*k)*M, t); } put(o+20*M, s); t = s; t[n-1] = V<N>(p); put(o+21*M, t); }
  static void spec(const double* a, const double* p, double* o) { FOR(k,22) FOR(i,M) o[k*M+i] = 0; auto w = [&](double* q, index_t m, auto f) { q[0] = m; FOR(i,m) FOR(j,N) q[1+i*N+j] = f(i)[j]; }; auto id = [&](index_t i) { return a + i*N; }; auto ex = [&](index_t i) { return i < n ? a + i*N : p; }; w(o, n, id); FOR(k,3) w(o+(1+k)*M, n < N+1 ? n+1 : n, ex); FOR(k,n) FOR(e,2) w(o+(4+2*k+e)*M, n-1, [&](index_t i) { return a + (i < k ? i : i+1)*N; }); w(o+20*M, n, id); w(o+21*M, n, [&](index_t i) { return i < n-1 ? a + i*N : p; }); } };
template struct List<2,1>; template struct List<2,2>; template struct List<2,3>; template struct List<3,2>; template struct List<3,4>;
template <index_t N, index_t n, index_t m> struct Eq { static void impl(const double* a, const double* b, double* o) { auto s = SX<N>(a, n), t = SX<N>(b, m); o[0] = s == t; o[1] = s != t; s.pts[N] = V<N>(b); auto u = SX<N>(a, n); o[2] = n > N || u == s; } static void spec(const double* a, const double* b, double* o) { bool e = n == m; if (e) FOR(i,n*N) e = e & (a[i] == b[i]); o[0] = e; o[1] = !e; o[2] = 1; } };
template struct Eq<2,2,2>; template struct Eq<2,3,3>; template struct Eq<2,2,3>; template struct Eq<2,0,0>; template struct Eq<2,0,1>; template struct Eq<3,3,3>;
template <index_t N> struct Std { static void impl(double x, double* o) { auto s = Simplex<double,N>::standard_simplex(); List<N,N+1>::put(o, s); o[List<N,N+1>::M] = Simplex<double,N>().n; } static void spec(double x, double* o) { o[0] = N+1; FOR(i,N+1) FOR(j,N) o[1+i*N+j] = i == j+1; o[List<N,N+1>::M] = 0; } };
template struct Std<2>; template struct Std<3>; template struct Std<4>;
