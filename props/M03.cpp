// Transposition: copies, in place, over shared storage, of every matrix kind; views of the transpose.
#include "m.h"
template <class T, index_t M, index_t N, MatrixLayout LA, MatrixLayout LB> struct Tr { static void impl(const T* a, T* o) { auto A = MX<T,M,N,LA>(a); svm(o, transpose(A)); SimpleMatrix<T,N,M,LB> d; transpose(&d, A); svm(o+M*N, d); SimpleMatrix<T,0,0,LB> e(N,M); transpose(&e, A); svm(o+2*M*N, e); auto D = DY<T,M,N,LA>(a); auto t = transpose(D); svm(o+3*M*N, t); o[4*M*N] = t.rows(); o[4*M*N+1] = t.cols(); transpose(&e, D); svm(o+4*M*N+2, e); transpose(&d, D); svm(o+5*M*N+2, d); svm(o+6*M*N+2, transpose(transpose(A))); }
  static void spec(const T* a, T* o) { FOR(k,4) spec_tr(a, o+k*M*N, M, N); o[4*M*N] = N; o[4*M*N+1] = M; FOR(k,2) spec_tr(a, o+4*M*N+2+k*M*N, M, N); FOR(i,M*N) o[6*M*N+2+i] = a[i]; } };
#define TRI(T,M,N) template struct Tr<T,M,N,RM,RM>; template struct Tr<T,M,N,RM,CM>; template struct Tr<T,M,N,CM,RM>; template struct Tr<T,M,N,CM,CM>;
TRI(double,2,2) TRI(double,3,3) TRI(double,2,3) TRI(double,4,2) TRI(double,1,3) TRI(double,4,4) TRI(int,3,2)
template <class T, index_t N, MatrixLayout L> struct TrSelf { static void impl(const T* a, T* o) { auto A = MX<T,N,N,L>(a); transpose(&A, A); svm(o, A); auto D = DY<T,N,N,L>(a); transpose(&D, D); svm(o+N*N, D); T b[N*N]; FOR(i,N*N) b[i] = a[i]; transpose_square_matrix(b, N); FOR(i,N*N) { o[2*N*N+i] = b[i]; b[i] = a[i]; } transpose_square_matrix<T,N>(b); FOR(i,N*N) o[3*N*N+i] = b[i]; }
  static void spec(const T* a, T* o) { FOR(k,4) spec_tr(a, o+k*N*N, N, N); } };
#define TS(N) template struct TrSelf<double,N,RM>; template struct TrSelf<double,N,CM>;
TS(1) TS(2) TS(3) TS(4) TS(5)
// storage shared between source and destination
template <class T, index_t M, index_t N, MatrixLayout L> struct TrShared { static void impl(const T* a, T* o) { T b[M*N]; FOR(i,M*N) b[i] = 0; SimpleMatrix<T,M,N,L,STORAGE_WRAPPED> S(b); SimpleMatrix<T,N,M,L,STORAGE_WRAPPED> D(b); ldm(S, a); transpose(&D, S); svm(o, D); SimpleMatrix<T,0,0,L,STORAGE_WRAPPED> E(b, M, N), F(b, N, M); ldm(E, a); transpose(&F, E); svm(o+M*N, F); }
  static void spec(const T* a, T* o) { FOR(k,2) spec_tr(a, o+k*M*N, M, N); } };
template struct TrShared<double,2,2,RM>; template struct TrShared<double,2,3,RM>; template struct TrShared<double,3,2,RM>; template struct TrShared<double,3,3,CM>; template struct TrShared<double,4,2,CM>; template struct TrShared<double,2,4,CM>;
template <class T, index_t M, index_t N> struct TrPart { static void impl(const T* a, T* o) { T b[M*N+1]; FOR(i,M*N+1) b[i] = 0; SimpleMatrix<T,M,N,RM,STORAGE_WRAPPED> S(b); SimpleMatrix<T,N,M,RM,STORAGE_WRAPPED> D(b+1); ldm(S, a); transpose(&D, S); svm(o, D); SimpleMatrix<T,0,0,RM,STORAGE_WRAPPED> E(b+1, M, N), F(b, N, M); ldm(E, a); transpose(&F, E); svm(o+M*N, F); }
  static void spec(const T* a, T* o) { FOR(k,2) spec_tr(a, o+k*M*N, M, N); } };
template struct TrPart<double,2,2>; template struct TrPart<double,2,3>; template struct TrPart<double,3,3>;
// the transposed view addresses the same storage
template <class T, index_t M, index_t N, MatrixLayout L> struct View { static void impl(const T* a, T* o) { auto D = DY<T,M,N,L>(a); auto V = D.as_transpose(); svm(o, V); o[M*N] = V.rows(); o[M*N+1] = V.cols(); V.set(N-1, 0, T(7)); svm(o+M*N+2, D); }
  static void spec(const T* a, T* o) { spec_tr(a, o, M, N); o[M*N] = N; o[M*N+1] = M; FOR(i,M*N) o[M*N+2+i] = a[i]; o[M*N+2+N-1] = 7; } };
template <class T, index_t M, index_t N, MatrixLayout L> struct ViewS { static void impl(const T* a, T* o) { auto D = MX<T,M,N,L>(a); auto V = D.as_transpose(); svm(o, V); o[M*N] = V.rows(); o[M*N+1] = V.cols(); V.set(N-1, 0, T(7)); svm(o+M*N+2, D); } static void spec(const T* a, T* o) { View<T,M,N,L>::spec(a, o); } };
#define VW(M,N) template struct View<double,M,N,RM>; template struct View<double,M,N,CM>; template struct ViewS<double,M,N,RM>; template struct ViewS<double,M,N,CM>;
VW(2,2) VW(2,3) VW(4,2) VW(3,3)
// diagonal
T2 struct TrDiag { static void impl(const T* a, T* o) { DiagMatrix<T,M,N> A; ldd(A, a); svm(o, transpose(A)); DiagMatrix<T,N,M> d; transpose(&d, A); svm(o+M*N, d); SimpleMatrix<T,N,M> e; transpose(&e, A); svm(o+2*M*N, e); DiagMatrix<T,0,0> B(M,N); ldd(B, a); auto f = transpose(B); svm(o+3*M*N, f); o[4*M*N] = f.rows(); o[4*M*N+1] = f.cols(); }
  static void spec(const T* a, T* o) { FOR(k,4) FOR(r,N) FOR(c,M) o[k*M*N+r*M+c] = r == c ? a[r] : T(0); o[4*M*N] = N; o[4*M*N+1] = M; } }; D2(TrDiag,double)
