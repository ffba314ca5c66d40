// Orthogonal complements, null spaces, Gram-Schmidt, projection onto subspaces.
#include "w.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Orthogonal.h>
template <index_t N> inline double dotn(const double* a, const double* b) { return DOT(a, b, N); }
// rank test: some maximal minor of the n x N matrix is nonzero (n = N-1: the generalised cross product is nonzero)
template <class T> inline T lap(const T* a, index_t n) { if (n == 0) return 1; if (n == 1) return a[0]; T s = 0; T sg = 1; for (index_t k = 0; k < n; ++k) { T b[16]; for (index_t r = 1; r < n; ++r) { index_t q = 0; for (index_t c = 0; c < n; ++c) if (c != k) b[(r-1)*(n-1) + q++] = a[r*n+c]; } s = s + sg * a[k] * lap(b, n-1); sg = -sg; } return s; }
template <class T, index_t N> inline void gencross(const T* a, T* o) { for (index_t k = 0; k < N; ++k) { T b[16]; for (index_t r = 0; r < N-1; ++r) { index_t q = 0; for (index_t c = 0; c < N; ++c) if (c != k) b[r*(N-1) + q++] = a[r*N+c]; } T m = lap(b, N-1); o[k] = k % 2 ? -m : m; } }
// orthogonal(): perpendicular to every input
template <index_t N> struct Orth { static void impl(const double* a, double* o) { Vec<double,N> v[N-1]; FOR(i,N-1) v[i] = Vec<double,N>(a + i*N); double x[N]; gencross<double,N>(a, x); vg_assume(MAG2(x, N) > 0); Vec<double,N> w = orthogonal(v); FOR(i,N-1) o[i] = w.dot(v[i]); o[N-1] = w.mag2() > 0; } static void spec(const double* a, double* o) { FOR(i,N-1) o[i] = 0; o[N-1] = 1; } };
template struct Orth<2>; template struct Orth<3>;
template <index_t N> struct OrthDep { static void impl(const double* a, double* o) { Vec<double,N> v[N-1]; FOR(i,N-1) v[i] = Vec<double,N>(a + i*N); double x[N]; gencross<double,N>(a, x); FOR(i,N) vg_assume(x[i] == 0); Vec<double,N> w = orthogonal(v); FOR(i,N) o[i] = w[i]; } static void spec(const double* a, double* o) { FOR(i,N) o[i] = 0; } };
template struct OrthDep<2>; template struct OrthDep<3>;
// larger dimensions: rows of (unit lower) x (permuted, symbolic upper) so that elimination takes one course
template <class T> inline T low(index_t r, index_t c) { return r == c ? T(1) : r < c ? T(0) : T((r*5 + c*3) % 7 - 3) / 2; }
// R rows in N dimensions; pivots (symbolic, positive) dominate their row: row k of U has diagonal u and the rest bounded multiples of it
template <index_t R, index_t N> inline void rows(const double* u, const index_t* p, double* a, bool dep = false) { double U[R*N]; FOR(r,R) { vg_assume(u[r] > 0); FOR(c,N) U[r*N+c] = c < r ? 0 : c == r ? u[r] : u[r] * (double((r*3 + c*5) % 9 - 4) / 5); } if (dep) FOR(c,N) U[(R-1)*N+c] = 0; FOR(r,R) FOR(c,N) { double s = 0; FOR(k,R) s += low<double>(r, k) * U[k*N+c]; a[r*N+p[c]] = s; } }
static constexpr index_t PP[3][6] = {{0,1,2,3,4,5}, {2,0,3,1,5,4}, {4,3,2,1,0,5}};
template <index_t N, int Q> struct PQ { static constexpr void fill(index_t* p) { index_t n = 0; for (int i = 0; i < 6; ++i) if (PP[Q][i] < N) p[n++] = PP[Q][i]; } };
template <index_t N, int Q> struct OrthN { static void impl(const double* u, double* o) { index_t p[N]; PQ<N,Q>::fill(p); double a[(N-1)*N]; rows<N-1,N>(u, p, a); Vec<double,N> v[N-1]; FOR(i,N-1) v[i] = Vec<double,N>(a + i*N); Vec<double,N> w = orthogonal(v); FOR(i,N-1) o[i] = w.dot(v[i]); o[N-1] = w.mag2() > 0; rows<N-1,N>(u, p, a, true); FOR(i,N-1) v[i] = Vec<double,N>(a + i*N); w = orthogonal(v); FOR(i,N) o[N+i] = w[i]; }
  static void spec(const double* u, double* o) { FOR(i,N-1) o[i] = 0; o[N-1] = 1; FOR(i,N) o[N+i] = 0; } };
template struct OrthN<4,0>; template struct OrthN<4,1>; template struct OrthN<4,2>; template struct OrthN<5,1>; template struct OrthN<5,2>;
// nullspace: perpendicular to every input, and independent (identity block in the free columns is checked through the rank of the whole)
template <index_t N, index_t n, int Q> struct Null { static void impl(const double* u, double* o) { index_t p[N]; PQ<N,Q>::fill(p); double a[n*N]; rows<n,N>(u, p, a); Vec<double,N> v[N]; FOR(i,n) v[i] = Vec<double,N>(a + i*N); o[0] = nullspace(v, n, v + n); FOR(i,n) for (index_t j = n; j < N; ++j) o[1 + i*N + j] = v[i].dot(v[j]); double m[N*N]; FOR(i,N) FOR(j,N) m[i*N+j] = v[i][j]; o[1+n*N] = lap(m, N) != 0; }
  static void spec(const double* u, double* o) { o[0] = 1; FOR(i,n) for (index_t j = n; j < N; ++j) o[1 + i*N + j] = 0; o[1+n*N] = 1; } };
template struct Null<3,1,0>; template struct Null<3,1,1>; template struct Null<3,2,1>; template struct Null<4,1,2>; template struct Null<4,2,0>; template struct Null<4,2,1>; template struct Null<4,3,2>; template struct Null<5,2,1>; template struct Null<5,3,2>; template struct Null<2,1,0>;
template <index_t N> struct Null1 { static void impl(const double* a, double* o) { vg_assume(MAG2(a, N) > 0); Vec<double,N> v[N]; v[0] = Vec<double,N>(a); nullspace(v, 1, v + 1); for (index_t j = 1; j < N; ++j) o[j-1] = v[0].dot(v[j]); double m[N*N]; FOR(i,N) FOR(j,N) m[i*N+j] = v[i][j]; o[N-1] = lap(m, N) != 0; } static void spec(const double* a, double* o) { FOR(j,N-1) o[j] = 0; o[N-1] = 1; } };
template struct Null1<2>; template struct Null1<3>;
template <index_t N, index_t n, int Q> struct NullDep { static void impl(const double* u, double* o) { index_t p[N]; PQ<N,Q>::fill(p); double a[n*N]; rows<n,N>(u, p, a, true); Vec<double,N> v[n], w[N-n]; FOR(i,N-n) w[i] = Vec<double,N>(7.0); FOR(i,n) v[i] = Vec<double,N>(a + i*N); nullspace(v, n, w); FOR(i,N-n) FOR(j,N) o[i*N+j] = w[i][j]; } static void spec(const double* u, double* o) { FOR(i,(N-n)*N) o[i] = 0; } };
template struct NullDep<3,1,1>; template struct NullDep<4,2,1>; template struct NullDep<4,3,2>; template struct NullDep<5,2,0>;
// Gram-Schmidt
template <index_t N, index_t n> struct GS { static void impl(const double* a, double* o) { Vec<double,N> v[n]; FOR(i,n) v[i] = Vec<double,N>(a + i*N); orthogonalize(v, n); index_t q = 0; FOR(i,n) FOR(j,N) o[q++] = v[i][j]; }
  // classical definition: subtract the projections on all earlier results
  static void spec(const double* a, double* o) { index_t q = 0; FOR(i,n) { double w[N]; FOR(k,N) w[k] = a[i*N+k]; for (index_t j = 0; j < i; ++j) { const double* e = o + j*N; double d = 0, m = 0; FOR(k,N) { d += a[i*N+k]*e[k]; m += e[k]*e[k]; } vg_assume(m > 0); FOR(k,N) w[k] -= d / m * e[k]; } FOR(k,N) o[q++] = w[k]; } } };
template struct GS<3,1>; template struct GS<3,2>; template struct GS<3,3>; template struct GS<4,2>; template struct GS<5,2>;
template <index_t N, index_t n> struct GSN { static void impl(const double* a, double* o) { Vec<double,N> v[n]; FOR(i,n) v[i] = Vec<double,N>(a + i*N); double t[n*N]; GS<N,n>::spec(a, t); vg_assume(MAG2(t + (n-1)*N, N) > 0); orthonormalize(v, n); index_t q = 0; FOR(i,n) FOR(j,N) o[q++] = v[i][j]; }
  static void spec(const double* a, double* o) { double t[n*N]; GS<N,n>::spec(a, t); FOR(i,n) { double m = MAG(t + i*N, N); FOR(k,N) o[i*N+k] = t[i*N+k] / m; } } };
template struct GSN<3,1>; template struct GSN<3,2>; template struct GSN<4,2>;
// 2D: the second vector becomes perpendicular to the (unchanged) first
struct GS2_ { static void impl(const double* a, double* o) { Vec<double,2> v[2] = {Vec<double,2>(a), Vec<double,2>(a+2)}; vg_assume(MAG2(a, 2) > 0); orthogonalize(v, 2); o[0] = v[0][0]; o[1] = v[0][1]; o[2] = v[0].dot(v[1]); } static void spec(const double* a, double* o) { o[0] = a[0]; o[1] = a[1]; o[2] = 0; } };
template <int X> struct GS2 { static void impl(const double* a, double* o) { GS2_::impl(a, o); } static void spec(const double* a, double* o) { GS2_::spec(a, o); } }; template struct GS2<0>;
// projections
template <index_t N, index_t n> struct ProjO { static void impl(const double* a, const double* x, double* o) { Vec<double,N> v[n]; FOR(i,n) v[i] = Vec<double,N>(a + i*N); Vec<double,N> y = project_to_orthogonal_subspace(v, Vec<double,N>(x), n); FOR(j,N) o[j] = y[j]; }
  static void spec(const double* a, const double* x, double* o) { FOR(j,N) o[j] = 0; FOR(i,n) { double m = MAG2(a+i*N, N), d = DOT(a+i*N, x, N); FOR(j,N) o[j] += m > 0 ? d / m * a[i*N+j] : 0; } } };
template struct ProjO<2,1>; template struct ProjO<3,1>; template struct ProjO<3,2>; template struct ProjO<4,2>;
template <index_t N, index_t n> struct ProjS { static void impl(const double* a, const double* x, double* o) { Vec<double,N> v[n]; FOR(i,n) v[i] = Vec<double,N>(a + i*N); double t[n*N]; GS<N,n>::spec(a, t); vg_assume(MAG2(t + (n-1)*N, N) > 0); Vec<double,N> y = project_to_subspace(v, Vec<double,N>(x), n); FOR(j,N) o[j] = y[j]; }
  static void spec(const double* a, const double* x, double* o) { double t[n*N]; GS<N,n>::spec(a, t); FOR(j,N) o[j] = 0; FOR(i,n) { double m = MAG2(t+i*N, N), d = DOT(t+i*N, x, N); FOR(j,N) o[j] += d / m * t[i*N+j]; } } };
template struct ProjS<3,1>; template struct ProjS<3,2>; template struct ProjS<4,2>;
// obligations that are not templates
VG_KEEP(GS2_)
