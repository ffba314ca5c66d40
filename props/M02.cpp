// Elementwise matrix operations: sums, differences, scaling, comparison, copies, conversions, identity and zero.
#include "m.h"
template <class T, index_t M, index_t N, MatrixLayout LA, MatrixLayout LB, MatrixLayout LD> struct AddL {
  static void impl(const T* a, const T* b, T* o) { auto A = MX<T,M,N,LA>(a); auto B = MX<T,M,N,LB>(b); SimpleMatrix<T,M,N,LD> d; add(&d, A, B); svm(o, d); sub(&d, A, B); svm(o+M*N, d); svm(o+2*M*N, A+B); svm(o+3*M*N, A-B); svm(o+4*M*N, add(A,B)); svm(o+5*M*N, sub(A,B)); }
  static void spec(const T* a, const T* b, T* o) { FOR(k,3) FOR(i,M*N) { o[2*k*M*N+i] = a[i]+b[i]; o[(2*k+1)*M*N+i] = a[i]-b[i]; } } };
#define LL(T,M,N) template struct AddL<T,M,N,RM,RM,RM>; template struct AddL<T,M,N,RM,CM,RM>; template struct AddL<T,M,N,CM,RM,CM>; template struct AddL<T,M,N,CM,CM,RM>; template struct AddL<T,M,N,CM,CM,CM>; template struct AddL<T,M,N,RM,RM,CM>;
LL(double,2,2) LL(double,3,3) LL(double,2,3) LL(double,4,2) LL(float,3,2) LL(int,2,3)
T2 struct AddDyn { static void impl(const T* a, const T* b, T* o) { auto A = DY<T,M,N>(a); auto B = DY<T,M,N>(b); auto S = MX<T,M,N>(b); svm(o, A+B); svm(o+M*N, A+S); svm(o+2*M*N, S+A); svm(o+3*M*N, A-B); svm(o+4*M*N, A-S); svm(o+5*M*N, S-A); add(&A, A, S); svm(o+6*M*N, A); sub(&B, A, B); svm(o+7*M*N, B); }
  static void spec(const T* a, const T* b, T* o) { FOR(i,M*N) { T s = a[i]+b[i], d = a[i]-b[i]; o[i] = o[M*N+i] = o[2*M*N+i] = s; o[3*M*N+i] = o[4*M*N+i] = d; o[5*M*N+i] = b[i]-a[i]; o[6*M*N+i] = s; o[7*M*N+i] = s - b[i]; } } }; D2(AddDyn,double)
// destination is an operand
T2 struct AddAlias { static void impl(const T* a, const T* b, T* o) { auto A = MX<T,M,N>(a); auto B = MX<T,M,N,CM>(b); add(&A, A, B); svm(o, A); auto C = MX<T,M,N>(a); sub(&B, C, B); svm(o+M*N, B); add(&C, C, C); svm(o+2*M*N, C); scale(&C, T(3), C); svm(o+3*M*N, C); }
  static void spec(const T* a, const T* b, T* o) { FOR(i,M*N) { o[i] = a[i]+b[i]; o[M*N+i] = a[i]-b[i]; o[2*M*N+i] = a[i]+a[i]; o[3*M*N+i] = 6*a[i]; } } }; D2(AddAlias,double)
T2 struct Scale { static void impl(const T* a, T s, T* o) { auto A = MX<T,M,N>(a); auto C = MX<T,M,N,CM>(a); auto D = DY<T,M,N>(a); svm(o, s*A); svm(o+M*N, A*s); svm(o+2*M*N, s*C); svm(o+3*M*N, D*s); svm(o+4*M*N, scale(s, A)); SimpleMatrix<T,M,N,CM> x; scale(&x, s, A); svm(o+5*M*N, x); A *= s; svm(o+6*M*N, A); C *= s; svm(o+7*M*N, C); D *= s; svm(o+8*M*N, D); }
  static void spec(const T* a, T s, T* o) { FOR(k,9) FOR(i,M*N) o[k*M*N+i] = s*a[i]; } }; D2(Scale,double) template struct Scale<float,2,3>; template struct Scale<int,3,2>;
// diagonal operands
#define DG (M<N?M:N)
template <class T> inline void dd(const T* a, T* o, index_t M, index_t N) { FOR(r,M) FOR(c,N) o[r*N+c] = r == c ? a[r] : T(0); }
template <class T, index_t M, index_t N> inline DiagMatrix<T,M,N> DI(const T* a) { DiagMatrix<T,M,N> d; ldd(d, a); return d; }
T2 struct AddDiag { static void impl(const T* a, const T* b, T s, T* o) { auto A = DI<T,M,N>(a), B = DI<T,M,N>(b); svm(o, A+B); svm(o+M*N, A-B); SimpleMatrix<T,M,N> d; add(&d, A, B); svm(o+2*M*N, d); sub(&d, A, B); svm(o+3*M*N, d); svm(o+4*M*N, s*A); svm(o+5*M*N, A*s); scale(&d, s, A); svm(o+6*M*N, d); scale(&A, s, A); svm(o+7*M*N, A); add(&B, B, B); svm(o+8*M*N, B); }
  static void spec(const T* a, const T* b, T s, T* o) { T A[M*N], B[M*N]; dd(a, A, M, N); dd(b, B, M, N); FOR(i,M*N) { o[i] = o[2*M*N+i] = A[i]+B[i]; o[M*N+i] = o[3*M*N+i] = A[i]-B[i]; FOR(k,4) o[(4+k)*M*N+i] = s*A[i]; o[8*M*N+i] = B[i]+B[i]; } } }; D2(AddDiag,double) template struct AddDiag<int,2,3>;
T2 struct AddMixed { static void impl(const T* a, const T* b, T* o) { auto A = DI<T,M,N>(a); auto B = MX<T,M,N>(b); auto C = MX<T,M,N,CM>(b); svm(o, A+B); svm(o+M*N, B-A); svm(o+2*M*N, A-C); add(&B, B, A); svm(o+3*M*N, B); }
  static void spec(const T* a, const T* b, T* o) { T A[M*N]; dd(a, A, M, N); FOR(i,M*N) { o[i] = o[3*M*N+i] = A[i]+b[i]; o[M*N+i] = b[i]-A[i]; o[2*M*N+i] = A[i]-b[i]; } } }; D2(AddMixed,double)
T2 struct DiagDyn { static void impl(const T* a, const T* b, T s, T* o) { DiagMatrix<T,0,0> A(M,N), B(M,N); ldd(A, a); ldd(B, b); svm(o, A); svm(o+M*N, A+B); svm(o+2*M*N, A-B); svm(o+3*M*N, s*A); A.set_identity(); svm(o+4*M*N, A); A.set_zero(); svm(o+5*M*N, A); o[6*M*N] = A.rows(); o[6*M*N+1] = A.cols(); DiagMatrix<T,0,0> C(B); svm(o+6*M*N+2, C); }
  static void spec(const T* a, const T* b, T s, T* o) { T A[M*N], B[M*N]; dd(a, A, M, N); dd(b, B, M, N); FOR(i,M*N) { o[i] = A[i]; o[M*N+i] = A[i]+B[i]; o[2*M*N+i] = A[i]-B[i]; o[3*M*N+i] = s*A[i]; o[4*M*N+i] = i/N == i%N; o[5*M*N+i] = 0; o[6*M*N+2+i] = B[i]; } o[6*M*N] = M; o[6*M*N+1] = N; } }; D2(DiagDyn,double)
// equality
T2 struct Eq { static bool impl(const T* a, const T* b) { return MX<T,M,N>(a) == MX<T,M,N>(b); } static bool spec(const T* a, const T* b) { bool e = true; FOR(i,M*N) e &= a[i] == b[i]; return e; } }; D2(Eq,double) template struct Eq<int,2,2>;
T2 struct EqL { static bool impl(const T* a, const T* b) { return MX<T,M,N>(a) == MX<T,M,N,CM>(b); } static bool spec(const T* a, const T* b) { bool e = true; FOR(i,M*N) e &= a[i] == b[i]; return e; } }; D2(EqL,double)
T2 struct EqCM { static bool impl(const T* a, const T* b) { return MX<T,M,N,CM>(a) != MX<T,M,N,CM>(b); } static bool spec(const T* a, const T* b) { bool e = true; FOR(i,M*N) e &= a[i] == b[i]; return !e; } }; D2(EqCM,double)
T2 struct EqDyn { static bool impl(const T* a, const T* b) { return DY<T,M,N>(a) == MX<T,M,N>(b); } static bool spec(const T* a, const T* b) { bool e = true; FOR(i,M*N) e &= a[i] == b[i]; return e; } }; D2(EqDyn,double)
T2 struct EqDiag { static bool impl(const T* a, const T* b) { return DI<T,M,N>(a) == DI<T,M,N>(b); } static bool spec(const T* a, const T* b) { bool e = true; FOR(i,DG) e &= a[i] == b[i]; return e; } }; D2(EqDiag,double)
T2 struct EqMixed { static bool impl(const T* a, const T* b) { return MX<T,M,N>(a) == DI<T,M,N>(b); } static bool spec(const T* a, const T* b) { T B[M*N]; dd(b, B, M, N); bool e = true; FOR(i,M*N) e &= a[i] == B[i]; return e; } }; D2(EqMixed,double)
T2 struct EqShape { static void impl(const T* a, int* o) { o[0] = DY<T,M,N>(a) == DY<T,M+1,N>(a); o[1] = DY<T,M,N>(a) == DY<T,M,N+1>(a); o[2] = MX<T,M,N>(a) == MX<T,M,N+1>(a); o[3] = DY<T,M,N>(a) == MX<T,M+1,N>(a); o[4] = MX<T,2,3>(a) == DY<T,3,2>(a); o[5] = DY<T,M,N>(a) != DY<T,M+1,N>(a); o[6] = DiagMatrix<T,0,0>(M,N) == DiagMatrix<T,0,0>(M,N+1); } static void spec(const T* a, int* o) { FOR(i,7) o[i] = i == 5; } }; D2(EqShape,int)
// identity, zero
template <class T, index_t M, index_t N, MatrixLayout L> struct Ident { static void impl(const T* a, T* o) { SimpleMatrix<T,M,N,L> m; svm(o, m); auto A = MX<T,M,N,L>(a); A.set_identity(); svm(o+M*N, A); A.set_zero(); svm(o+2*M*N, A); auto D = DY<T,M,N,L>(a); D.set_identity(); svm(o+3*M*N, D); D.set_zero(); svm(o+4*M*N, D); SimpleMatrix<T,0,0,L> E(M,N); svm(o+5*M*N, E); o[6*M*N] = E.rows(); o[6*M*N+1] = E.cols(); DiagMatrix<T,M,N> g; svm(o+6*M*N+2, g); }
  static void spec(const T* a, T* o) { FOR(i,M*N) { T d = i/N == i%N; o[i] = o[M*N+i] = d; o[2*M*N+i] = 0; o[3*M*N+i] = d; o[4*M*N+i] = 0; o[5*M*N+i] = d; o[6*M*N+2+i] = d; } o[6*M*N] = M; o[6*M*N+1] = N; } };
#define ID(M,N) template struct Ident<double,M,N,RM>; template struct Ident<double,M,N,CM>;
ID(2,2) ID(3,3) ID(2,3) ID(4,2) ID(5,2) ID(2,5) ID(1,3) ID(4,4) ID(3,1) ID(7,3)
// copies between every kind
template <class T, index_t M, index_t N, MatrixLayout LA, MatrixLayout LB> struct Copy { static void impl(const T* a, T* o) { auto A = MX<T,M,N,LA>(a); SimpleMatrix<T,M,N,LB> B; mtxcopy(&B, A); svm(o, B); SimpleMatrix<T,0,0,LB> D(M,N); mtxcopy(&D, A); svm(o+M*N, D); SimpleMatrix<T,M,N,LB> E; mtxcopy(&E, D); svm(o+2*M*N, E); SimpleMatrix<T,M,N,LB> F(A); svm(o+3*M*N, F); SimpleMatrix<T,0,0,LB> G(A); svm(o+4*M*N, G); o[5*M*N] = G.rows(); o[5*M*N+1] = G.cols(); auto H = A; svm(o+5*M*N+2, H); H.set_zero(); svm(o+6*M*N+2, A); }
  static void spec(const T* a, T* o) { FOR(i,M*N) { FOR(k,5) o[k*M*N+i] = a[i]; o[5*M*N+2+i] = a[i]; o[6*M*N+2+i] = a[i]; } o[5*M*N] = M; o[5*M*N+1] = N; } };
#define CP(M,N) template struct Copy<double,M,N,RM,RM>; template struct Copy<double,M,N,RM,CM>; template struct Copy<double,M,N,CM,RM>; template struct Copy<double,M,N,CM,CM>;
CP(2,2) CP(3,3) CP(2,3) CP(4,2) CP(1,3)
T2 struct CopyMisc { static void impl(const T* a, T* o) { auto D = DI<T,M,N>(a); SimpleMatrix<T,M,N> B; mtxcopy(&B, D); svm(o, B); SimpleMatrix<T,M,N,CM> C(D); svm(o+M*N, C); DiagMatrix<T,M,N> E; mtxcopy(&E, D); svm(o+2*M*N, E); DiagMatrix<T,M,N> F(a); svm(o+3*M*N, F); SimpleMatrix<float,M,N> G; mtxcopy(&G, MX<T,M,N>(a)); FOR(r,M) FOR(c,N) o[4*M*N+r*N+c] = G(r,c); }
  static void spec(const T* a, T* o) { FOR(k,4) dd(a, o+k*M*N, M, N); FOR(i,M*N) o[4*M*N+i] = (float)a[i]; } }; D2(CopyMisc,double)
T2 struct CopyVec { static void impl(const T* a, T* o) { Vec<T,N> v(a); SimpleMatrix<T,1,N> r; mtxcopy(&r, v); svm(o, r); SimpleMatrix<T,N,1> c; mtxcopy(&c, v); svm(o+N, c); Vec<T,N> w; mtxcopy(&w, MX<T,1,N>(a)); sv(o+2*N, w); Vec<T,N> x; mtxcopy(&x, MX<T,N,1>(a)); sv(o+3*N, x); Vec<T,N> y; mtxcopy(&y, DY<T,N,1>(a)); sv(o+4*N, y); }
  static void spec(const T* a, T* o) { FOR(k,5) FOR(i,N) o[k*N+i] = a[i]; } }; template struct CopyVec<double,1,2>; template struct CopyVec<double,1,3>; template struct CopyVec<double,1,4>;
// in-place multiplication by a diagonal
T2 struct MulDiag { static void impl(const T* a, const T* b, T* o) { auto A = MX<T,M,N>(a); auto D = DI<T,N,N>(b); A *= D; svm(o, A); auto E = DI<T,N,N>(a); E *= D; svm(o+M*N, E); auto C = MX<T,M,N,CM>(a); C *= D; svm(o+M*N+N*N, C); }
  static void spec(const T* a, const T* b, T* o) { FOR(r,M) FOR(c,N) o[r*N+c] = o[M*N+N*N+r*N+c] = a[r*N+c]*b[c]; FOR(r,N) FOR(c,N) o[M*N+r*N+c] = r == c ? a[r]*b[r] : T(0); } }; D2(MulDiag,double)
