// Matrix products over every pairing of matrix kinds.
#include "m.h"
template <class T, index_t M, index_t K, index_t N, MatrixLayout LA, MatrixLayout LB, MatrixLayout LD> struct MulL {
  static void impl(const T* a, const T* b, T* o) { auto A = MX<T,M,K,LA>(a); auto B = MX<T,K,N,LB>(b); SimpleMatrix<T,M,N,LD> d; mul(&d, A, B); svm(o, d); svm(o+M*N, A*B); }
  static void spec(const T* a, const T* b, T* o) { spec_mul(a, b, o, M, K, N); spec_mul(a, b, o+M*N, M, K, N); } };
#define LL(T,M,K,N) template struct MulL<T,M,K,N,RM,RM,RM>; template struct MulL<T,M,K,N,RM,CM,RM>; template struct MulL<T,M,K,N,CM,RM,CM>; template struct MulL<T,M,K,N,CM,CM,RM>; template struct MulL<T,M,K,N,CM,CM,CM>;
LL(double,2,2,2) LL(double,3,3,3) LL(double,2,3,4) LL(double,4,2,3) LL(double,1,3,2) LL(double,3,1,3) LL(double,4,4,4) LL(float,2,3,2) LL(int,3,2,3) LL(int,2,2,2)
// products into, or from, matrices sized at run time
T3 struct MulDyn { static void impl(const T* a, const T* b, T* o) { auto A = DY<T,M,K>(a); auto B = DY<T,K,N>(b); SimpleMatrix<T,0,0> d(M,N); mul(&d, A, B); svm(o, d); svm(o+M*N, A*B); auto As = MX<T,M,K>(a); auto Bs = MX<T,K,N>(b); svm(o+2*M*N, As*B); svm(o+3*M*N, A*Bs); SimpleMatrix<T,M,N> ds; mul(&ds, A, B); svm(o+4*M*N, ds); mul(&d, As, Bs); svm(o+5*M*N, d); }
  static void spec(const T* a, const T* b, T* o) { FOR(i,6) spec_mul(a, b, o+i*M*N, M, K, N); } }; D3S(MulDyn,double) D3S(MulDyn,int)
T3 struct MulAcc { static void impl(const T* a, const T* b, const T* c, T* o) { auto A = MX<T,M,K>(a); auto B = MX<T,K,N>(b); auto d = MX<T,M,N>(c); mul_acc(&d, A, B); svm(o, d); }
  static void spec(const T* a, const T* b, const T* c, T* o) { spec_mul(a, b, o, M, K, N); FOR(i,M*N) o[i] += c[i]; } }; D3(MulAcc,double)
// the destination is one of the operands
T1 struct MulAlias { static void impl(const T* a, const T* b, T* o) { auto A = MX<T,3,3>(a); auto B = MX<T,3,3>(b); mul(&A, A, B); svm(o, A); auto C = MX<T,3,3>(a); mul(&B, C, B); svm(o+9, B); mul(&C, C, C); svm(o+18, C); }
  static void spec(const T* a, const T* b, T* o) { spec_mul(a, b, o, 3, 3, 3); spec_mul(a, b, o+9, 3, 3, 3); spec_mul(a, a, o+18, 3, 3, 3); } };
template struct MulAlias<double>; template struct MulAlias<int>;
// ... or storage shared with it through a wrapper
T1 struct MulWrap { static void impl(const T* a, const T* b, T* o) { T buf[9]; FOR(i,9) buf[i] = a[i]; SimpleMatrix<T,3,3,RM,STORAGE_WRAPPED> W(buf), W2(buf); auto B = MX<T,3,3>(b); mul(&W, W2, B); FOR(i,9) o[i] = buf[i]; FOR(i,9) buf[i] = a[i]; mul(&W, B, W2); FOR(i,9) o[9+i] = buf[i]; }
  static void spec(const T* a, const T* b, T* o) { spec_mul(a, b, o, 3, 3, 3); spec_mul(b, a, o+9, 3, 3, 3); } };
template struct MulWrap<double>;
// ... or a part of its storage
T1 struct MulPart { static void impl(const T* a, const T* b, T* o) { T buf[8]; FOR(i,8) buf[i] = a[i]; SimpleMatrix<T,2,2,RM,STORAGE_WRAPPED> S(buf); SimpleMatrix<T,2,4,RM,STORAGE_WRAPPED> D(buf); auto B = MX<T,2,4>(b); mul(&D, S, B); FOR(i,8) o[i] = buf[i];
    FOR(i,8) buf[i] = a[i]; SimpleMatrix<T,2,2,RM,STORAGE_WRAPPED> Dp(buf+1); SimpleMatrix<T,2,4,RM,STORAGE_WRAPPED> S2(buf); auto C = MX<T,4,2>(b); mul(&Dp, S2, C); FOR(i,4) o[8+i] = buf[1+i]; 
    FOR(i,8) buf[i] = a[i]; SimpleMatrix<T,2,2,RM,STORAGE_WRAPPED> Dq(buf+2); SimpleMatrix<T,2,2,RM,STORAGE_WRAPPED> S3(buf); auto E = MX<T,2,2>(b); mul(&Dq, S3, E); FOR(i,4) o[12+i] = buf[2+i]; }
  static void spec(const T* a, const T* b, T* o) { spec_mul(a, b, o, 2, 2, 4); spec_mul(a, b, o+8, 2, 4, 2); spec_mul(a, b, o+12, 2, 2, 2); } };
template struct MulPart<double>;
T2 struct MatVec { static void impl(const T* a, const T* v, const T* w, T* o) { auto A = MX<T,M,N>(a); Vec<T,N> x(v); Vec<T,M> y(w); sv(o, A*x); sv(o+M, y*A); auto C = MX<T,M,N,CM>(a); sv(o+M+N, C*x); sv(o+2*M+N, y*C); Vec<T,M> d; mul(&d, A, x); sv(o+2*M+2*N, d); SimpleMatrix<T,M,1> dm; mul(&dm, A, x); svm(o+3*M+2*N, dm); SimpleMatrix<T,1,N> dr; mul(&dr, y, A); svm(o+4*M+2*N, dr); Vec<T,N> e; mul(&e, y, A); sv(o+4*M+3*N, e); }
  static void spec(const T* a, const T* v, const T* w, T* o) { spec_mul(a, v, o, M, N, 1); spec_mul(w, a, o+M, 1, M, N); spec_mul(a, v, o+M+N, M, N, 1); spec_mul(w, a, o+2*M+N, 1, M, N); spec_mul(a, v, o+2*M+2*N, M, N, 1); spec_mul(a, v, o+3*M+2*N, M, N, 1); spec_mul(w, a, o+4*M+2*N, 1, M, N); spec_mul(w, a, o+4*M+3*N, 1, M, N); } };
template struct MatVec<double,2,2>; template struct MatVec<double,3,3>; template struct MatVec<double,2,3>; template struct MatVec<double,4,3>; template struct MatVec<int,3,2>; template struct MatVec<float,4,4>;
T1 struct MatVecSelf { static void impl(const T* a, const T* v, T* o) { auto A = MX<T,3,3>(a); Vec<T,3> x(v); mul(&x, A, x); sv(o, x); Vec<T,3> y(v); mul(&y, y, A); sv(o+3, y); }
  static void spec(const T* a, const T* v, T* o) { spec_mul(a, v, o, 3, 3, 1); spec_mul(v, a, o+3, 1, 3, 3); } }; template struct MatVecSelf<double>;
T2 struct DynVec { static void impl(const T* a, const T* v, const T* w, T* o) { auto A = DY<T,M,N>(a); Vec<T,N> x(v); Vec<T,M> y(w), d; mul(&d, A, x); sv(o, d); Vec<T,N> e; mul(&e, y, A); sv(o+M, e); svm(o+M+N, A*x); svm(o+2*M+N, y*A); }
  static void spec(const T* a, const T* v, const T* w, T* o) { spec_mul(a, v, o, M, N, 1); spec_mul(w, a, o+M, 1, M, N); spec_mul(a, v, o+M+N, M, N, 1); spec_mul(w, a, o+2*M+N, 1, M, N); } };
template struct DynVec<double,2,3>; template struct DynVec<double,4,4>;
// accumulate a matrix-vector product
T2 struct AccVec { static void impl(const T* a, const T* v, const T* w, T* o) { auto A = MX<T,M,N>(a); Vec<T,N> x(v); Vec<T,M> y(w), d(w); mul_acc(&d, A, x); sv(o, d); Vec<T,N> e(v); mul_acc(&e, y, A); sv(o+M, e); }
  static void spec(const T* a, const T* v, const T* w, T* o) { spec_mul(a, v, o, M, N, 1); spec_mul(w, a, o+M, 1, M, N); FOR(i,M) o[i] += w[i]; FOR(i,N) o[M+i] += v[i]; } };
template struct AccVec<double,2,3>; template struct AccVec<double,3,3>;
