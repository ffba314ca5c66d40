// LU decomposition: PLU / LUP factors reproduce the matrix, for every shape and layout; solving linear systems.
#include "m.h"
#include "perm.h"
#include <geomc/linalg/LUDecomp.h>
// L U (of the packed result, min(M,N) wide) in row-major order
template <class T> inline void luprod(const T* m, T* o, index_t M, index_t N) { index_t n = M < N ? M : N; FOR(r,M) FOR(c,N) { T s = 0; for (index_t k = 0; k < n && k <= r && k <= c; ++k) s += (k == r ? T(1) : m[r*N+k]) * m[k*N+c]; o[r*N+c] = s; } }
// general matrices: packed result multiplies out to the reordered input; reordering is a permutation whose parity is as reported
template <index_t M, index_t N, bool RMJ, bool PLU> struct Lu { static void go(const double* a, double* o, bool sp) { double b[M*N], d[M*N]; FOR(r,M) FOR(c,N) b[RMJ ? r*N+c : c*M+r] = a[r*N+c]; index_t p[5]; bool par; index_t deg = PLU ? decomp_plu<double,RMJ>(b, M, N, p, &par) : decomp_lup<double,RMJ>(b, M, N, p, &par);
   FOR(r,M) FOR(c,N) d[r*N+c] = b[RMJ ? r*N+c : c*M+r]; vg_assume(deg == 0);
   if (!sp) luprod(d, o, M, N); else FOR(r,M) FOR(c,N) o[r*N+c] = PLU ? a[p[r]*N+c] : a[r*N+p[c]];
   index_t K = PLU ? M : N; int inv = 0; FOR(i,K) for (index_t j = i+1; j < K; ++j) inv += p[i] > p[j]; o[M*N] = sp ? (inv & 1) : par; index_t seen = 0; FOR(i,K) seen |= index_t(1) << p[i]; o[M*N+1] = sp ? (1 << K) - 1 : seen; }
  static void impl(const double* a, double* o) { go(a, o, false); } static void spec(const double* a, double* o) { go(a, o, true); } };
#define LU4(M,N) template struct Lu<M,N,true,true>; template struct Lu<M,N,false,true>; template struct Lu<M,N,true,false>; template struct Lu<M,N,false,false>;
LU4(1,1) LU4(2,2) LU4(1,2) LU4(2,1) LU4(1,3) LU4(3,1) LU4(2,3) LU4(3,2)
// degenerate: reported exactly when the rows (columns) are dependent
template <bool RMJ, bool PLU> struct Deg2 { static void impl(const double* a, double* o) { double b[4]; FOR(i,4) b[i] = a[i]; bool par; index_t deg = PLU ? decomp_plu<double,RMJ>(b, 2, 2, nullptr, &par) : decomp_lup<double,RMJ>(b, 2, 2, nullptr, &par); o[0] = deg > 0; } static void spec(const double* a, double* o) { o[0] = a[0]*a[3] == a[1]*a[2]; } };
template struct Deg2<true,true>; template struct Deg2<false,true>; template struct Deg2<true,false>; template struct Deg2<false,false>;
// P L U with symbolic U: the factors themselves come back
template <int K, index_t N> struct Plu { static void impl(const double* u, double* o) { plu_assume(u, N); double b[N*N], t[N*N]; plu_make(u, PT<K,N>::t.p, b, N); FOR(r,N) FOR(c,N) t[c*N+r] = b[r*N+c]; index_t p[N], q[N]; bool par = false, par2 = false; o[2*N*N] = decomp_plu(b, N, N, p, &par); FOR(i,N*N) o[i] = b[i]; FOR(i,N) o[2*N*N+2+i] = p[i]; o[2*N*N+1] = par; plu_make(u, PT<K,N>::t.p, b, N); FOR(r,N) FOR(c,N) t[c*N+r] = b[r*N+c]; decomp_plu<double,false>(t, N, N, q, &par2); FOR(r,N) FOR(c,N) o[N*N+r*N+c] = t[c*N+r]; }
  static void spec(const double* u, double* o) { FOR(k,2) FOR(r,N) FOR(c,N) o[k*N*N+r*N+c] = r > c ? plu_l<double>(r, c) : u[r*N+c]; o[2*N*N] = 0; o[2*N*N+1] = perm_parity<N>(PT<K,N>::t.p) < 0; FOR(i,N) o[2*N*N+2+i] = PT<K,N>::t.p[i]; } };
PALL(Plu) template struct Plu<301,6>;
// linear_solve over buffers: A X = B
template <int K, index_t N, index_t M, bool RMJ> struct Solve { static void mat(const double* u, double* b) { plu_assume(u, N); plu_make(u, PT<K,N>::t.p, b, N); }
  static void impl(const double* u, const double* x, double* o) { double b[N*N], m[N*N], X[N*M]; mat(u, b); FOR(r,N) FOR(c,N) m[RMJ ? r*N+c : c*N+r] = b[r*N+c]; FOR(r,N) FOR(c,M) { double s = 0; FOR(k,N) s += b[r*N+k]*x[k*M+c]; X[RMJ ? r*M+c : c*N+r] = s; } o[N*M] = linear_solve<double,RMJ>(m, N, M, X); FOR(r,N) FOR(c,M) o[r*M+c] = X[RMJ ? r*M+c : c*N+r]; }
  static void spec(const double* u, const double* x, double* o) { FOR(i,N*M) o[i] = x[i]; o[N*M] = 1; } };
template struct Solve<0,1,1,true>; template struct Solve<1,2,1,true>; template struct Solve<1,2,3,false>; template struct Solve<4,3,1,true>; template struct Solve<3,3,2,true>; template struct Solve<3,3,2,false>; template struct Solve<5,3,2,true>; template struct Solve<17,4,2,true>; template struct Solve<10,4,2,false>; template struct Solve<74,5,1,true>; template struct Solve<57,5,2,false>; template struct Solve<90,5,2,true>;
// backsolve_plu on an undestroyed right-hand side, with and without skipped unknowns
template <int K, index_t N, index_t M, bool RMJ, index_t SK> struct Back { static void impl(const double* u, const double* x, double* o) { double b[N*N], m[N*N], B[N*M], X[N*M]; plu_assume(u, N); plu_make(u, PT<K,N>::t.p, b, N); FOR(r,N) FOR(c,N) m[RMJ ? r*N+c : c*N+r] = b[r*N+c]; FOR(r,N) FOR(c,M) { double s = 0; FOR(k,N) s += b[r*N+k]*x[k*M+c]; B[RMJ ? r*M+c : c*N+r] = s; } index_t p[N]; bool par; o[N*M] = decomp_plu<double,RMJ>(m, N, N, p, &par); backsolve_plu<double,RMJ>(m, p, N, M, X, B, SK); FOR(r,N) FOR(c,M) o[r*M+c] = r < SK ? 0 : X[RMJ ? r*M+c : c*N+r]; }
  static void spec(const double* u, const double* x, double* o) { FOR(r,N) FOR(c,M) o[r*M+c] = r < SK ? 0 : x[r*M+c]; o[N*M] = 0; } };
template struct Back<1,2,1,true,0>; template struct Back<3,3,2,true,0>; template struct Back<4,3,2,false,0>; template struct Back<17,4,1,true,0>; template struct Back<17,4,2,true,2>; template struct Back<5,3,1,true,1>;
template <int K, index_t N, index_t M, bool RMJ, index_t SK> struct SolveSkip { static void impl(const double* u, const double* x, double* o) { double b[N*N], m[N*N], X[N*M]; plu_assume(u, N); plu_make(u, PT<K,N>::t.p, b, N); FOR(r,N) FOR(c,N) m[RMJ ? r*N+c : c*N+r] = b[r*N+c]; FOR(r,N) FOR(c,M) { double s = 0; FOR(k,N) s += b[r*N+k]*x[k*M+c]; X[RMJ ? r*M+c : c*N+r] = s; } o[N*M] = linear_solve<double,RMJ>(m, N, M, X, SK); FOR(r,N) FOR(c,M) o[r*M+c] = r < SK ? 0 : X[RMJ ? r*M+c : c*N+r]; }
  static void spec(const double* u, const double* x, double* o) { FOR(r,N) FOR(c,M) o[r*M+c] = r < SK ? 0 : x[r*M+c]; o[N*M] = 1; } };
template struct SolveSkip<3,3,2,true,1>; template struct SolveSkip<4,3,1,false,2>; template struct SolveSkip<17,4,2,true,2>;
template <int K, index_t N, index_t Z> struct SolveSing { static void impl(const double* u, double* o) { plu_assume(u, N); double b[N*N], X[N]; plu_make(u, PT<K,N>::t.p, b, N, Z); FOR(i,N) X[i] = i; o[0] = linear_solve(b, N, 1, X); FOR(i,N) o[1+i] = X[i]; } static void spec(const double* u, double* o) { o[0] = 0; FOR(i,N) o[1+i] = i; } };
template struct SolveSing<2,3,2>; template struct SolveSing<3,3,1>; template struct SolveSing<4,3,0>; template struct SolveSing<10,4,3>; template struct SolveSing<57,5,4>;
// vectors in a basis: x such that sum x_i bases_i = b
template <index_t N, index_t M> struct VecSolve { static double lap(const double* a, index_t n) { if (n == 1) return a[0]; double s = 0, sg = 1; for (index_t k = 0; k < n; ++k) { double b[16]; for (index_t r = 1; r < n; ++r) { index_t q = 0; for (index_t c = 0; c < n; ++c) if (c != k) b[(r-1)*(n-1) + q++] = a[r*n+c]; } s += sg * a[k] * lap(b, n-1); sg = -sg; } return s; }
  static void impl(const double* a, const double* x, double* o) { vg_assume(lap(a, N) != 0); Vec<double,N> bs[N], v[M]; FOR(i,N) bs[i] = Vec<double,N>(a + i*N); FOR(j,M) FOR(i,N) v[j] += bs[i] * x[j*N+i]; o[N*M] = linear_solve(bs, M, v); FOR(j,M) FOR(i,N) o[j*N+i] = v[j][i]; }
  static void spec(const double* a, const double* x, double* o) { FOR(i,N*M) o[i] = x[i]; o[N*M] = 1; } };
template struct VecSolve<2,1>; template struct VecSolve<2,3>; template struct VecSolve<3,1>; template struct VecSolve<3,2>; template struct VecSolve<4,1>;
template <index_t N> struct VecSolveSing { static void impl(const double* a, const double* x, double* o) { vg_assume(VecSolve<N,1>::lap(a, N) == 0); Vec<double,N> bs[N], v(x); FOR(i,N) bs[i] = Vec<double,N>(a + i*N); o[0] = linear_solve(bs, 1, &v); } static void spec(const double* a, const double* x, double* o) { o[0] = 0; } };
template struct VecSolveSing<2>; template struct VecSolveSing<3>; template struct VecSolveSing<4>;
template <int K, index_t M> struct VecSolve5 { static constexpr index_t N = 5; static void impl(const double* u, const double* x, double* o) { plu_assume(u, N); double b[N*N]; plu_make(u, PT<K,N>::t.p, b, N); Vec<double,N> bs[N], v[M]; FOR(i,N) FOR(r,N) bs[i][r] = b[r*N+i]; FOR(j,M) FOR(i,N) v[j] += bs[i] * x[j*N+i]; o[N*M] = linear_solve(bs, M, v); FOR(j,M) FOR(i,N) o[j*N+i] = v[j][i]; }
  static void spec(const double* u, const double* x, double* o) { FOR(i,N*M) o[i] = x[i]; o[N*M] = 1; } };
template struct VecSolve5<31,1>; template struct VecSolve5<74,2>; template struct VecSolve5<119,1>; template struct VecSolve5<90,2>;
