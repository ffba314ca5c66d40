// Cholesky: the lower triangular factor with positive diagonal, recovered from M M^T; failure reported for other matrices.
#include "m.h"
#include <geomc/linalg/Cholesky.h>
// symbolic lower-triangular factor g (row-major n*n input, lower part) with positive diagonal
template <class T> inline void gram(const T* g, T* a, index_t n) { FOR(i,n) vg_assume(g[i*n+i] > 0); FOR(r,n) FOR(c,n) { T s = 0; for (index_t k = 0; k <= r && k <= c; ++k) s += g[r*n+k] * g[c*n+k]; a[r*n+c] = s; } }
template <class T, index_t N> struct Raw { static void impl(const T* g, T* o) { T a[N*N]; gram(g, a, N); o[N*N] = cholesky<T,true>(a, N); FOR(i,N*N) o[i] = a[i]; gram(g, a, N); o[2*N*N+1] = cholesky<T,false>(a, N); FOR(r,N) FOR(c,N) o[N*N+1 + r*N+c] = a[c*N+r]; }
  static void spec(const T* g, T* o) { FOR(k,2) { FOR(r,N) FOR(c,N) o[k*(N*N+1)+r*N+c] = r >= c ? g[r*N+c] : 0; o[k*(N*N+1)+N*N] = 1; } } };
template struct Raw<double,1>; template struct Raw<double,2>; template struct Raw<double,3>; template struct Raw<double,4>; template struct Raw<double,5>; template struct Raw<float,3>;
template <class T, index_t N, MatrixLayout L> struct Mat { static void impl(const T* g, T* o) { T a[N*N]; gram(g, a, N); auto A = MX<T,N,N,L>(a); o[N*N] = cholesky(&A); svm(o, A); auto D = DY<T,N,N,L>(a); o[2*N*N+1] = cholesky(&D); svm(o+N*N+1, D); }
  static void spec(const T* g, T* o) { Raw<T,N>::spec(g, o); } };
template struct Mat<double,1,RM>; template struct Mat<double,2,RM>; template struct Mat<double,2,CM>; template struct Mat<double,3,RM>; template struct Mat<double,3,CM>; template struct Mat<double,4,RM>; template struct Mat<double,4,CM>;
// non-square dynamically sized: refused and left alone
struct NonSq { static void impl(const double* a, double* o) { auto D = DY<double,2,3>(a); o[0] = cholesky(&D); svm(o+1, D); } static void spec(const double* a, double* o) { o[0] = 0; FOR(i,6) o[1+i] = a[i]; } };
template <int X> struct NonSqT : NonSq { static void impl(const double* a, double* o) { NonSq::impl(a, o); } static void spec(const double* a, double* o) { NonSq::spec(a, o); } }; template struct NonSqT<0>;
// not positive-definite: some leading minor is not positive
template <class T, MatrixLayout L> struct Not1 { static bool impl(const T* a) { auto A = MX<T,1,1,L>(a); return cholesky(&A); } static bool spec(const T* a) { return a[0] > 0; } };
template <class T, MatrixLayout L> struct Not2 { static bool impl(const T* a) { T b[4] = {a[0], a[1], a[1], a[2]}; vg_assume(a[0] > 0); auto A = MX<T,2,2,L>(b); return cholesky(&A); } static bool spec(const T* a) { return a[0]*a[2] - a[1]*a[1] > 0; } };
template <class T, MatrixLayout L> struct Not2z { static bool impl(const T* a) { T b[4] = {a[0], a[1], a[1], a[2]}; vg_assume(a[0] < 0); auto A = MX<T,2,2,L>(b); return cholesky(&A); } static bool spec(const T* a) { return false; } };
#define NN(S) template struct S<double,RM>; template struct S<double,CM>;
NN(Not1) NN(Not2) NN(Not2z)
// obligations that are not templates
VG_KEEP(NonSq)
