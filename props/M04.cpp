// Determinants: of dense matrices of every size and layout, raw arrays, diagonal and permutation matrices.
#include "m.h"
#include "perm.h"
// Laplace expansion along the first row
template <class T> inline T lap(const T* a, index_t n) { if (n == 0) return T(1); if (n == 1) return a[0]; T s = 0; T sg = 1;
  for (index_t k = 0; k < n; ++k) { T b[36]; for (index_t r = 1; r < n; ++r) { index_t q = 0; for (index_t c = 0; c < n; ++c) if (c != k) b[(r-1)*(n-1) + q++] = a[r*n+c]; } s = s + sg * a[k] * lap(b, n-1); sg = -sg; } return s; }
T1 struct Raw2 { static void impl(const T* a, T* o) { o[0] = det2x2(a); o[1] = det2x2(a[0], a[1], a[2], a[3]); } static void spec(const T* a, T* o) { o[0] = o[1] = a[0]*a[3] - a[1]*a[2]; } };
T1 struct Raw3 { static void impl(const T* a, T* o) { o[0] = det3x3(a); o[1] = det3x3(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); } static void spec(const T* a, T* o) { o[0] = o[1] = lap(a, 3); } };
T1 struct Raw4 { static T impl(const T* a) { return det4x4(a); } static T spec(const T* a) { return lap(a, 4); } };
#define RR(T) template struct Raw2<T>; template struct Raw3<T>; template struct Raw4<T>;
RR(double) RR(float)
// general n x n elimination
template <class T, index_t N> struct DetN { static T impl(const T* a) { return detNxN(a, N); } static T spec(const T* a) { return lap(a, N); } };
template <class T, index_t N> struct DetDestr { static T impl(const T* a) { T b[N*N]; FOR(i,N*N) b[i] = a[i]; return det_destructive(b, N); } static T spec(const T* a) { return lap(a, N); } };
#define DN(N) template struct DetN<double,N>; template struct DetDestr<double,N>;
DN(1) DN(2)
#ifdef THOROUGH
DN(3)
#endif
// matrix objects
template <class T, index_t N, MatrixLayout L> struct DetS { static void impl(const T* a, T* o) { auto A = MX<T,N,N,L>(a); o[0] = det(A); } static void spec(const T* a, T* o) { o[0] = lap(a, N); } };
template <class T, index_t N, MatrixLayout L> struct DetD { static void impl(const T* a, T* o) { auto B = DY<T,N,N,L>(a); o[0] = det(B); } static void spec(const T* a, T* o) { o[0] = lap(a, N); } };
template <class T, index_t N, MatrixLayout L> struct DetW { static void impl(const T* a, T* o) { T b[N*N]; SimpleMatrix<T,N,N,L,STORAGE_WRAPPED> W(b); ldm(W, a); o[0] = det(W); } static void spec(const T* a, T* o) { o[0] = lap(a, N); } };
#define DS(S,N) template struct S<double,N,RM>; template struct S<double,N,CM>;
DS(DetS,1) DS(DetS,2) DS(DetS,3) DS(DetS,4) DS(DetD,1) DS(DetD,2) DS(DetW,2) DS(DetW,3) DS(DetW,4)
// structured matrices: triangular up to a permutation, so that elimination takes a known course at larger sizes
template <class T, index_t N, MatrixLayout L> struct DetTri { static void impl(const T* a, T* o) { T b[N*N]; FOR(i,N*N) b[i] = 0; FOR(r,N) for (index_t c = r; c < N; ++c) b[r*N+c] = a[r*N+c]; auto A = MX<T,N,N,L>(b); o[0] = det(A); o[1] = detNxN(b, N); o[2] = det_destructive(b, N); } static void spec(const T* a, T* o) { T p = 1; FOR(i,N) p = p * a[i*N+i]; o[0] = o[1] = o[2] = p; } };
template struct DetTri<double,5,RM>; template struct DetTri<double,6,RM>; template struct DetTri<double,7,RM>; template struct DetTri<double,4,CM>;
// P L U with symbolic U: every permutation of 3 and 4 rows, some of 5
template <int K, index_t N> struct DetPLU { static void impl(const double* u, double* o) { plu_assume(u, N); double b[N*N]; plu_make(u, PT<K,N>::t.p, b, N); auto A = MX<double,N,N,RM>(b); o[0] = det(A); if (N <= 4) { auto B = MX<double,N,N,CM>(b); o[1] = det(B); } else o[1] = o[0]; o[2] = detNxN(b, N); auto D = DY<double,N,N,RM>(b); o[3] = det(D); o[4] = det_destructive(b, N); }
  static void spec(const double* u, double* o) { double p = perm_parity<N>(PT<K,N>::t.p); FOR(i,N) p = p * u[i*N+i]; FOR(i,5) o[i] = p; } };
PALL(DetPLU)
template <int K, index_t N, index_t Z> struct DetSing { static void impl(const double* u, double* o) { plu_assume(u, N); double b[N*N]; plu_make(u, PT<K,N>::t.p, b, N, Z); auto A = MX<double,N,N,RM>(b); o[0] = det(A); o[1] = detNxN(b, N); o[2] = det_destructive(b, N); }
  static void spec(const double* u, double* o) { FOR(i,3) o[i] = 0; } };
template struct DetSing<2,3,2>; template struct DetSing<3,3,1>; template struct DetSing<4,3,0>; template struct DetSing<10,4,3>; template struct DetSing<17,4,2>; template struct DetSing<57,5,4>;
// non-square dynamically sized matrices have determinant 0
template <index_t M, index_t N> struct DetNonsq { static void impl(const double* a, double* o) { auto A = DY<double,M,N>(a); o[0] = det(A); DiagMatrix<double,0,0> D(M,N); ldd(D, a); o[1] = det(D); } static void spec(const double* a, double* o) { o[0] = o[1] = 0; } };
template struct DetNonsq<2,3>; template struct DetNonsq<3,2>;
template <index_t N> struct DetDiag { static void impl(const double* a, double* o) { DiagMatrix<double,N,N> D; ldd(D, a); o[0] = det(D); DiagMatrix<double,0,0> E(N,N); ldd(E, a); o[1] = det(E); } static void spec(const double* a, double* o) { double p = 1; FOR(i,N) p = p * a[i]; o[0] = o[1] = p; } };
template struct DetDiag<1>; template struct DetDiag<2>; template struct DetDiag<3>; template struct DetDiag<5>;
