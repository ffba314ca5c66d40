// Products with diagonal matrices.
#include "m.h"
template <class T> inline void full(const T* a, T* o, index_t M, index_t N) { FOR(i,M*N) o[i] = 0; FOR(i,std::min(M,N)) o[i*N+i] = a[i]; }
T3 struct DiagL { static void impl(const T* a, const T* b, T* o) { DiagMatrix<T,M,K> D; ldd(D, a); auto B = MX<T,K,N>(b); svm(o, D*B); SimpleMatrix<T,M,N,CM> d; mul(&d, D, B); svm(o+M*N, d); }
  static void spec(const T* a, const T* b, T* o) { T f[M*K]; full(a, f, M, K); spec_mul(f, b, o, M, K, N); spec_mul(f, b, o+M*N, M, K, N); } }; D3(DiagL,double)
T3 struct DiagR { static void impl(const T* a, const T* b, T* o) { auto A = MX<T,M,K>(a); DiagMatrix<T,K,N> D; ldd(D, b); svm(o, A*D); SimpleMatrix<T,M,N,CM> d; mul(&d, A, D); svm(o+M*N, d); }
  static void spec(const T* a, const T* b, T* o) { T f[K*N]; full(b, f, K, N); spec_mul(a, f, o, M, K, N); spec_mul(a, f, o+M*N, M, K, N); } }; D3(DiagR,double)
T3 struct DiagD { static void impl(const T* a, const T* b, T* o) { DiagMatrix<T,M,K> A; ldd(A, a); DiagMatrix<T,K,N> B; ldd(B, b); svm(o, A*B); SimpleMatrix<T,M,N> d; mul(&d, A, B); svm(o+M*N, d); }
  static void spec(const T* a, const T* b, T* o) { T f[M*K], g[K*N]; full(a, f, M, K); full(b, g, K, N); FOR(i,2) spec_mul(f, g, o+i*M*N, M, K, N); } }; D3(DiagD,double)
template <class T, index_t N> struct DiagEq { static void impl(const T* a, const T* b, T* o) { auto A = MX<T,N,N>(a); DiagMatrix<T,N,N> D; ldd(D, b); A *= D; svm(o, A); } static void spec(const T* a, const T* b, T* o) { T g[N*N]; full(b, g, N, N); spec_mul(a, g, o, N, N, N); } }; D1(DiagEq,double)
T2 struct DiagVec { static void impl(const T* a, const T* v, const T* w, T* o) { DiagMatrix<T,M,N> D; ldd(D, a); sv(o, D*Vec<T,N>(v)); sv(o+M, Vec<T,M>(w)*D); } static void spec(const T* a, const T* v, const T* w, T* o) { T f[M*N]; full(a, f, M, N); spec_mul(f, v, o, M, N, 1); spec_mul(w, f, o+M, 1, M, N); } };
template struct DiagVec<double,2,2>; template struct DiagVec<double,3,3>; template struct DiagVec<double,2,3>; template struct DiagVec<double,4,3>;
template <class T, index_t N> struct DiagDyn { static void impl(const T* a, const T* b, T* o) { DiagMatrix<T,0,0> D(a, N); auto B = DY<T,N,N>(b); svm(o, D*B); svm(o+N*N, B*D); svm(o+2*N*N, D*D); } static void spec(const T* a, const T* b, T* o) { T f[N*N]; full(a, f, N, N); spec_mul(f, b, o, N, N, N); spec_mul(b, f, o+N*N, N, N, N); spec_mul(f, f, o+2*N*N, N, N, N); } };
template struct DiagDyn<double,2>; template struct DiagDyn<double,3>;
