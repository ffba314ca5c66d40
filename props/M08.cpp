// Run-time dimension checks: an operation on matrices or vectors whose dimensions are only known at run time reports a mismatch
// by exception, exactly when the dimensions disagree, and otherwise computes its result.
// S*: bit i of the mask says that the i-th dimension is static (part of the type).
#include "m.h"
#include "perm.h"
#include "geomc/GeomException.cpp"
#define ST(b,v) ((MASK >> b & 1) ? v : 0)
#define BAD throw DimensionMismatchException(0,0,0,0)
template <class Mx, class T> inline Mx mk(const T* a, index_t r, index_t c) { Mx m(r, c); ldm(m, a); return m; }
template <class Mx, class T> inline Mx mkd(const T* a, index_t r, index_t c) { Mx m(r, c); ldd(m, a); return m; }
template <class Mx> inline void sva(double* o, const Mx& m) { o[0] = m.rows(); o[1] = m.cols(); svm(o+2, m); }
#define SIX template <int MASK, index_t ar, index_t ac, index_t br, index_t bc, index_t dr, index_t dc>
#define SFOUR template <int MASK, index_t ar, index_t ac, index_t br, index_t bc>
#define TA(L) SimpleMatrix<double,ST(0,ar),ST(1,ac),L>
#define TB(L) SimpleMatrix<double,ST(2,br),ST(3,bc),L>
#define TD(L) SimpleMatrix<double,ST(4,dr),ST(5,dc),L>
#define GA DiagMatrix<double,ST(0,ar),ST(1,ac)>
#define GB DiagMatrix<double,ST(2,br),ST(3,bc)>
#define GD DiagMatrix<double,ST(4,dr),ST(5,dc)>
#define IN const double* a, const double* b, const double* d, double* o
inline void dg(const double* a, double* m, index_t r, index_t c) { FOR(i,r) FOR(j,c) m[i*c+j] = i == j ? a[i] : 0; }
// destination, operands; X: 0 dense, 1 diagonal
template <class A, int X> inline A mkx(const double* a, index_t r, index_t c) { if constexpr (X) return mkd<A>(a, r, c); else return mk<A>(a, r, c); }
template <int X> inline void exp_(const double* a, double* m, index_t r, index_t c) { if constexpr (X) dg(a, m, r, c); else FOR(i,r*c) m[i] = a[i]; }
#define MULSPEC(P) static void spec(IN) { if (ac != br || ar != dr || bc != dc) BAD; double x[ar*ac], y[br*bc]; exp_<XA>(a, x, ar, ac); exp_<XB>(b, y, br, bc); o[0] = ar; o[1] = bc; spec_mul(x, y, o+2, ar, ac, bc); P }
#define MULD(S,A_,B_,D_,xa,xb) SIX struct S { static const int XA = xa, XB = xb; typedef A_ A; typedef B_ B; typedef D_ D; static void impl(IN) { A x = mkx<A,XA>(a, ar, ac); B y = mkx<B,XB>(b, br, bc); D z(dr, dc); mul(&z, x, y); sva(o, z); } MULSPEC() };
MULD(MulRR, TA(RM), TB(RM), TD(RM), 0, 0) MULD(MulCR, TA(CM), TB(RM), TD(CM), 0, 0) MULD(MulGD, GA, TB(RM), TD(RM), 1, 0) MULD(MulDG, TA(RM), GB, TD(RM), 0, 1) MULD(MulGG, GA, GB, TD(RM), 1, 1) MULD(MulGGG, GA, GB, GD, 1, 1)
SIX struct MulAcc { static const int XA = 0, XB = 0; typedef TA(RM) A; typedef TB(RM) B; typedef TD(RM) D; static void impl(IN) { A x = mk<A>(a, ar, ac); B y = mk<B>(b, br, bc); D z = mk<D>(d, dr, dc); mul_acc(&z, x, y); sva(o, z); } MULSPEC(FOR(i,ar*bc) o[2+i] = d[i] + o[2+i];) };
SFOUR struct MulNew { typedef TA(RM) A; typedef TB(CM) B; static void impl(const double* a, const double* b, double* o) { A x = mk<A>(a, ar, ac); B y = mk<B>(b, br, bc); sva(o, x * y); sva(o + 2 + ar*bc, mul(x, y)); }
  static void spec(const double* a, const double* b, double* o) { if (ac != br) BAD; FOR(k,2) { double* p = o + k*(2 + ar*bc); p[0] = ar; p[1] = bc; spec_mul(a, b, p+2, ar, ac, bc); } } };
SFOUR struct MulNewG { typedef TA(RM) A; typedef GB B; static void impl(const double* a, const double* b, double* o) { A x = mk<A>(a, ar, ac); B y = mkd<B>(b, br, bc); sva(o, x * y); }
  static void spec(const double* a, const double* b, double* o) { if (ac != br) BAD; double y[br*bc]; dg(b, y, br, bc); o[0] = ar; o[1] = bc; spec_mul(a, y, o+2, ar, ac, bc); } };
SFOUR struct MulEqG { typedef TA(RM) A; typedef GB B; static void impl(const double* a, const double* b, double* o) { A x = mk<A>(a, ar, ac); B y = mkd<B>(b, br, bc); x *= y; sva(o, x); }
  static void spec(const double* a, const double* b, double* o) { if (ac != br) BAD; double y[br*bc]; dg(b, y, br, bc); o[0] = ar; o[1] = bc; spec_mul(a, y, o+2, ar, ac, bc); } };
// elementwise
#define ADD(S,OP,SG,A_,B_,D_,xa,xb,xd) SIX struct S { static const int XA = xa, XB = xb; typedef A_ A; typedef B_ B; typedef D_ D; static void impl(IN) { A x = mkx<A,XA>(a, ar, ac); B y = mkx<B,XB>(b, br, bc); D z(dr, dc); OP(&z, x, y); sva(o, z); } \
  static void spec(IN) { if (ar != br || ar != dr || ac != bc || ac != dc) BAD; double x[ar*ac], y[br*bc]; exp_<XA>(a, x, ar, ac); exp_<XB>(b, y, br, bc); o[0] = ar; o[1] = ac; FOR(i,ar*ac) o[2+i] = x[i] SG y[i]; } };
ADD(AddInto, add, +, TA(RM), TB(RM), TD(RM), 0, 0, 0) ADD(SubInto, sub, -, TA(RM), TB(RM), TD(RM), 0, 0, 0) ADD(AddIntoC, add, +, TA(CM), TB(RM), TD(CM), 0, 0, 0) ADD(AddG, add, +, GA, GB, TD(RM), 1, 1, 0) ADD(SubG, sub, -, GA, GB, GD, 1, 1, 1)
#define ADDN(S,EX,SG,A_,B_,xa,xb) SFOUR struct S { static const int XA = xa, XB = xb; typedef A_ A; typedef B_ B; static void impl(const double* a, const double* b, double* o) { A x = mkx<A,XA>(a, ar, ac); B y = mkx<B,XB>(b, br, bc); sva(o, EX); } \
  static void spec(const double* a, const double* b, double* o) { if (ar != br || ac != bc) BAD; double x[ar*ac], y[br*bc]; exp_<XA>(a, x, ar, ac); exp_<XB>(b, y, br, bc); o[0] = ar; o[1] = ac; FOR(i,ar*ac) o[2+i] = x[i] SG y[i]; } };
ADDN(AddNew, add(x, y), +, TA(RM), TB(RM), 0, 0) ADDN(SubNew, sub(x, y), -, TA(RM), TB(CM), 0, 0) ADDN(OpAdd, x + y, +, TA(RM), TB(CM), 0, 0) ADDN(OpSub, x - y, -, TA(RM), TB(RM), 0, 0) ADDN(AddNG, add(x, y), +, GA, GB, 1, 1) ADDN(SubNG, x - y, -, GA, GB, 1, 1)
// a source and a destination: a (ar x ac) is the source, (br x bc) the destination
#define UNI(S,IM,A_,B_,xa,COND,RES) SFOUR struct S { static const int XA = xa; typedef A_ A; typedef B_ B; static void impl(const double* a, double* o) { A x = mkx<A,XA>(a, ar, ac); B z(br, bc); IM; sva(o, z); } \
  static void spec(const double* a, double* o) { if (COND) BAD; double x[ar*ac]; exp_<XA>(a, x, ar, ac); o[0] = br; o[1] = bc; FOR(r,br) FOR(c,bc) o[2+r*bc+c] = RES; } };
#define SAME (ar != br || ac != bc)
#define FLIP (ar != bc || ac != br)
UNI(CopyD, mtxcopy(&z, x), TA(RM), TB(RM), 0, SAME, x[r*ac+c]) UNI(CopyC, mtxcopy(&z, x), TA(CM), TB(RM), 0, SAME, x[r*ac+c]) UNI(CopyG, mtxcopy(&z, x), GA, TB(RM), 1, SAME, x[r*ac+c]) UNI(CopyGG, mtxcopy(&z, x), GA, GB, 1, SAME, x[r*ac+c])
UNI(ScaleD, scale(&z, 3., x), TA(RM), TB(CM), 0, SAME, 3*x[r*ac+c]) UNI(ScaleG, scale(&z, 3., x), GA, TB(RM), 1, SAME, 3*x[r*ac+c]) UNI(ScaleGG, scale(&z, 3., x), GA, GB, 1, SAME, 3*x[r*ac+c])
UNI(TrD, transpose(&z, x), TA(RM), TB(RM), 0, FLIP, x[c*ac+r]) UNI(TrC, transpose(&z, x), TA(RM), TB(CM), 0, FLIP, x[c*ac+r]) UNI(TrG, transpose(&z, x), GA, TB(RM), 1, FLIP, x[c*ac+r]) UNI(TrGG, transpose(&z, x), GA, GB, 1, FLIP, x[c*ac+r])
// comparison never throws: matrices of different shapes are unequal
#define CMP(S,A_,B_,xa,xb) SFOUR struct S { static const int XA = xa, XB = xb; typedef A_ A; typedef B_ B; static int impl(const double* a, const double* b) { A x = mkx<A,XA>(a, ar, ac); B y = mkx<B,XB>(b, br, bc); return (x == y) + 2*(x != y); } \
  static int spec(const double* a, const double* b) { if (ar != br || ac != bc) return 2; double x[ar*ac], y[br*bc]; exp_<XA>(a, x, ar, ac); exp_<XB>(b, y, br, bc); bool e = true; FOR(i,ar*ac) e = e & (x[i] == y[i]); return e ? 1 : 2; } };
CMP(EqD, TA(RM), TB(RM), 0, 0) CMP(EqC, TA(RM), TB(CM), 0, 0) CMP(EqG, GA, TB(RM), 1, 0) CMP(EqGG, GA, GB, 1, 1)
// inversion: a (ar x ac) is the source, (br x bc) the destination
SFOUR struct InvD { typedef TA(RM) A; typedef TB(RM) B; static void impl(const double* a, double* o) { vg_assume(a[0]*a[3] - a[1]*a[2] != 0); A x = mk<A>(a, ar, ac); B z(br, bc); bool ok = inv(&z, x); sva(o, z); o[2+br*bc] = ok; }
  static void spec(const double* a, double* o) { vg_assume(a[0]*a[3] - a[1]*a[2] != 0); if (ar != ac) throw NonsquareMatrixException(0,0); if (SAME) BAD; double k = a[0]*a[3] - a[1]*a[2]; o[0] = o[1] = 2; o[2] = a[3]/k; o[3] = -a[1]/k; o[4] = -a[2]/k; o[5] = a[0]/k; o[6] = 1; } };
SFOUR struct InvG { typedef GA A; typedef GB B; static void impl(const double* a, double* o) { vg_assume(a[0] != 0 && a[1] != 0); A x = mkd<A>(a, ar, ac); B z(br, bc); bool ok = inv(&z, x); sva(o, z); o[2+br*bc] = ok; }
  static void spec(const double* a, double* o) { vg_assume(a[0] != 0 && a[1] != 0); if (ar != ac) throw NonsquareMatrixException(0,0); if (SAME) BAD; o[0] = o[1] = 2; o[2] = 1/a[0]; o[3] = o[4] = 0; o[5] = 1/a[1]; o[6] = 1; } };
template <int MASK, index_t ar, index_t ac> struct InvN { typedef TA(RM) A; static void impl(const double* a, double* o) { vg_assume(a[0]*a[3] - a[1]*a[2] != 0); A x = mk<A>(a, ar, ac); bool ok = false; sva(o, inv(x, &ok)); o[6] = ok; }
  static void spec(const double* a, double* o) { if (ar != ac) { vg_assume(a[0]*a[3] - a[1]*a[2] != 0); throw NonsquareMatrixException(0,0); } InvD<0,2,2,2,2>::spec(a, o); } };
template <int MASK, index_t ar, index_t ac> struct InvNG { typedef GA A; static void impl(const double* a, double* o) { vg_assume(a[0] != 0 && a[1] != 0); A x = mkd<A>(a, ar, ac); bool ok = false; sva(o, inv(x, &ok)); o[6] = ok; }
  static void spec(const double* a, double* o) { if (ar != ac) { vg_assume(a[0] != 0 && a[1] != 0); throw NonsquareMatrixException(0,0); } InvG<0,2,2,2,2>::spec(a, o); } };
// vectors: the matrix is (ar x ac), the vector has n elements
#define V3 template <int MASK, index_t ar, index_t ac, index_t n>
V3 struct MxV { typedef TA(RM) A; static void impl(const double* a, const double* b, double* o) { A x = mk<A>(a, ar, ac); auto r = x * ld<double,n>(b); FOR(i,ar) o[i] = *(r.begin() + i); } static void spec(const double* a, const double* b, double* o) { if (ac != n) BAD; spec_mul(a, b, o, ar, n, 1); } };
V3 struct VxM { typedef TA(RM) A; static void impl(const double* a, const double* b, double* o) { A x = mk<A>(a, ar, ac); auto r = ld<double,n>(b) * x; FOR(i,ac) o[i] = *(r.begin() + i); } static void spec(const double* a, const double* b, double* o) { if (ar != n) BAD; spec_mul(b, a, o, 1, n, ac); } };
template <int MASK, index_t ar, index_t ac, index_t n, index_t k> struct MxVd { typedef TA(RM) A; static void impl(const double* a, const double* b, double* o) { A x = mk<A>(a, ar, ac); Vec<double,k> z; mul(&z, x, ld<double,n>(b)); sv(o, z); } static void spec(const double* a, const double* b, double* o) { if (ac != n || ar != k) BAD; spec_mul(a, b, o, ar, n, 1); } };
template <int MASK, index_t ar, index_t ac, index_t n, index_t k> struct VxMd { typedef TA(RM) A; static void impl(const double* a, const double* b, double* o) { A x = mk<A>(a, ar, ac); Vec<double,k> z; mul(&z, ld<double,n>(b), x); sv(o, z); } static void spec(const double* a, const double* b, double* o) { if (ar != n || ac != k) BAD; spec_mul(b, a, o, 1, n, ac); } };
// copies between a vector and a matrix
V3 struct CopyVM { typedef TA(RM) A; static void impl(const double* b, double* o) { A x(ar, ac); mtxcopy(&x, ld<double,n>(b)); sva(o, x); } static void spec(const double* b, double* o) { if (!((ar == 1 && ac == n) || (ar == n && ac == 1))) BAD; o[0] = ar; o[1] = ac; FOR(i,n) o[2+i] = b[i]; } };
V3 struct CopyMV { typedef TA(RM) A; static void impl(const double* a, double* o) { A x = mk<A>(a, ar, ac); Vec<double,n> v; mtxcopy(&v, x); sv(o, v); } static void spec(const double* a, double* o) { if (!((ar == 1 && ac == n) || (ar == n && ac == 1))) BAD; FOR(i,n) o[i] = a[i]; } };
// permutations of dynamic size
template <int K, index_t N, int MASK, index_t ar, index_t ac> struct PxM { typedef TA(RM) A; static void impl(const double* a, double* o) { A x = mk<A>(a, ar, ac); auto P = PD<K,N>(); sva(o, P * x); } static void spec(const double* a, double* o) { if (ar != N) BAD; double p[N*N]; dense(PT<K,N>::t.p, p, N); o[0] = N; o[1] = ac; spec_mul(p, a, o+2, N, N, ac); } };
template <int K, index_t N, int MASK, index_t ar, index_t ac> struct MxP { typedef TA(RM) A; static void impl(const double* a, double* o) { A x = mk<A>(a, ar, ac); auto P = PD<K,N>(); sva(o, x * P); } static void spec(const double* a, double* o) { if (ac != N) BAD; double p[N*N]; dense(PT<K,N>::t.p, p, N); o[0] = ar; o[1] = N; spec_mul(a, p, o+2, ar, N, N); } };
//GENERATED
template struct MulRR<0,2,3,3,4,2,4>; template struct MulAcc<0,2,3,3,4,2,4>; template struct MulRR<63,2,3,3,4,2,4>; template struct MulAcc<63,2,3,3,4,2,4>; template struct MulRR<62,2,3,3,4,2,4>;
template struct MulAcc<62,2,3,3,4,2,4>; template struct MulRR<61,2,3,3,4,2,4>; template struct MulAcc<61,2,3,3,4,2,4>; template struct MulRR<59,2,3,3,4,2,4>; template struct MulAcc<59,2,3,3,4,2,4>;
template struct MulRR<55,2,3,3,4,2,4>; template struct MulAcc<55,2,3,3,4,2,4>; template struct MulRR<47,2,3,3,4,2,4>; template struct MulAcc<47,2,3,3,4,2,4>; template struct MulRR<31,2,3,3,4,2,4>;
template struct MulAcc<31,2,3,3,4,2,4>; template struct MulRR<1,2,3,3,4,2,4>; template struct MulAcc<1,2,3,3,4,2,4>; template struct MulRR<2,2,3,3,4,2,4>; template struct MulAcc<2,2,3,3,4,2,4>;
template struct MulRR<4,2,3,3,4,2,4>; template struct MulAcc<4,2,3,3,4,2,4>; template struct MulRR<8,2,3,3,4,2,4>; template struct MulAcc<8,2,3,3,4,2,4>; template struct MulRR<16,2,3,3,4,2,4>;
template struct MulAcc<16,2,3,3,4,2,4>; template struct MulRR<32,2,3,3,4,2,4>; template struct MulAcc<32,2,3,3,4,2,4>; template struct MulRR<16,3,3,3,4,2,4>; template struct MulAcc<16,3,3,3,4,2,4>;
template struct MulRR<1,3,3,3,4,2,4>; template struct MulAcc<1,3,3,3,4,2,4>; template struct MulRR<0,3,3,3,4,2,4>; template struct MulAcc<0,3,3,3,4,2,4>; template struct MulRR<62,3,3,3,4,2,4>;
template struct MulAcc<62,3,3,3,4,2,4>; template struct MulRR<47,3,3,3,4,2,4>; template struct MulAcc<47,3,3,3,4,2,4>; template struct MulRR<46,3,3,3,4,2,4>; template struct MulAcc<46,3,3,3,4,2,4>;
template struct MulRR<16,1,3,3,4,2,4>; template struct MulAcc<16,1,3,3,4,2,4>; template struct MulRR<1,1,3,3,4,2,4>; template struct MulAcc<1,1,3,3,4,2,4>; template struct MulRR<0,1,3,3,4,2,4>;
template struct MulAcc<0,1,3,3,4,2,4>; template struct MulRR<62,1,3,3,4,2,4>; template struct MulAcc<62,1,3,3,4,2,4>; template struct MulRR<47,1,3,3,4,2,4>; template struct MulAcc<47,1,3,3,4,2,4>;
template struct MulRR<46,1,3,3,4,2,4>; template struct MulAcc<46,1,3,3,4,2,4>; template struct MulRR<16,2,3,3,4,3,4>; template struct MulAcc<16,2,3,3,4,3,4>; template struct MulRR<1,2,3,3,4,3,4>;
template struct MulAcc<1,2,3,3,4,3,4>; template struct MulRR<0,2,3,3,4,3,4>; template struct MulAcc<0,2,3,3,4,3,4>; template struct MulRR<62,2,3,3,4,3,4>; template struct MulAcc<62,2,3,3,4,3,4>;
template struct MulRR<47,2,3,3,4,3,4>; template struct MulAcc<47,2,3,3,4,3,4>; template struct MulRR<46,2,3,3,4,3,4>; template struct MulAcc<46,2,3,3,4,3,4>; template struct MulRR<16,2,3,3,4,1,4>;
template struct MulAcc<16,2,3,3,4,1,4>; template struct MulRR<1,2,3,3,4,1,4>; template struct MulAcc<1,2,3,3,4,1,4>; template struct MulRR<0,2,3,3,4,1,4>; template struct MulAcc<0,2,3,3,4,1,4>;
template struct MulRR<62,2,3,3,4,1,4>; template struct MulAcc<62,2,3,3,4,1,4>; template struct MulRR<47,2,3,3,4,1,4>; template struct MulAcc<47,2,3,3,4,1,4>; template struct MulRR<46,2,3,3,4,1,4>;
template struct MulAcc<46,2,3,3,4,1,4>; template struct MulRR<4,2,4,3,4,2,4>; template struct MulAcc<4,2,4,3,4,2,4>; template struct MulRR<2,2,4,3,4,2,4>; template struct MulAcc<2,2,4,3,4,2,4>;
template struct MulRR<0,2,4,3,4,2,4>; template struct MulAcc<0,2,4,3,4,2,4>; template struct MulRR<61,2,4,3,4,2,4>; template struct MulAcc<61,2,4,3,4,2,4>; template struct MulRR<59,2,4,3,4,2,4>;
template struct MulAcc<59,2,4,3,4,2,4>; template struct MulRR<57,2,4,3,4,2,4>; template struct MulAcc<57,2,4,3,4,2,4>; template struct MulRR<4,2,2,3,4,2,4>; template struct MulAcc<4,2,2,3,4,2,4>;
template struct MulRR<2,2,2,3,4,2,4>; template struct MulAcc<2,2,2,3,4,2,4>; template struct MulRR<0,2,2,3,4,2,4>; template struct MulAcc<0,2,2,3,4,2,4>; template struct MulRR<61,2,2,3,4,2,4>;
template struct MulAcc<61,2,2,3,4,2,4>; template struct MulRR<59,2,2,3,4,2,4>; template struct MulAcc<59,2,2,3,4,2,4>; template struct MulRR<57,2,2,3,4,2,4>; template struct MulAcc<57,2,2,3,4,2,4>;
template struct MulRR<4,2,3,4,4,2,4>; template struct MulAcc<4,2,3,4,4,2,4>; template struct MulRR<2,2,3,4,4,2,4>; template struct MulAcc<2,2,3,4,4,2,4>; template struct MulRR<0,2,3,4,4,2,4>;
template struct MulAcc<0,2,3,4,4,2,4>; template struct MulRR<61,2,3,4,4,2,4>; template struct MulAcc<61,2,3,4,4,2,4>; template struct MulRR<59,2,3,4,4,2,4>; template struct MulAcc<59,2,3,4,4,2,4>;
template struct MulRR<57,2,3,4,4,2,4>; template struct MulAcc<57,2,3,4,4,2,4>; template struct MulRR<4,2,3,2,4,2,4>; template struct MulAcc<4,2,3,2,4,2,4>; template struct MulRR<2,2,3,2,4,2,4>;
template struct MulAcc<2,2,3,2,4,2,4>; template struct MulRR<0,2,3,2,4,2,4>; template struct MulAcc<0,2,3,2,4,2,4>; template struct MulRR<61,2,3,2,4,2,4>; template struct MulAcc<61,2,3,2,4,2,4>;
template struct MulRR<59,2,3,2,4,2,4>; template struct MulAcc<59,2,3,2,4,2,4>; template struct MulRR<57,2,3,2,4,2,4>; template struct MulAcc<57,2,3,2,4,2,4>; template struct MulRR<32,2,3,3,5,2,4>;
template struct MulAcc<32,2,3,3,5,2,4>; template struct MulRR<8,2,3,3,5,2,4>; template struct MulAcc<8,2,3,3,5,2,4>; template struct MulRR<0,2,3,3,5,2,4>; template struct MulAcc<0,2,3,3,5,2,4>;
template struct MulRR<55,2,3,3,5,2,4>; template struct MulAcc<55,2,3,3,5,2,4>; template struct MulRR<31,2,3,3,5,2,4>; template struct MulAcc<31,2,3,3,5,2,4>; template struct MulRR<23,2,3,3,5,2,4>;
template struct MulAcc<23,2,3,3,5,2,4>; template struct MulRR<32,2,3,3,3,2,4>; template struct MulAcc<32,2,3,3,3,2,4>; template struct MulRR<8,2,3,3,3,2,4>; template struct MulAcc<8,2,3,3,3,2,4>;
template struct MulRR<0,2,3,3,3,2,4>; template struct MulAcc<0,2,3,3,3,2,4>; template struct MulRR<55,2,3,3,3,2,4>; template struct MulAcc<55,2,3,3,3,2,4>; template struct MulRR<31,2,3,3,3,2,4>;
template struct MulAcc<31,2,3,3,3,2,4>; template struct MulRR<23,2,3,3,3,2,4>; template struct MulAcc<23,2,3,3,3,2,4>; template struct MulRR<32,2,3,3,4,2,5>; template struct MulAcc<32,2,3,3,4,2,5>;
template struct MulRR<8,2,3,3,4,2,5>; template struct MulAcc<8,2,3,3,4,2,5>; template struct MulRR<0,2,3,3,4,2,5>; template struct MulAcc<0,2,3,3,4,2,5>; template struct MulRR<55,2,3,3,4,2,5>;
template struct MulAcc<55,2,3,3,4,2,5>; template struct MulRR<31,2,3,3,4,2,5>; template struct MulAcc<31,2,3,3,4,2,5>; template struct MulRR<23,2,3,3,4,2,5>; template struct MulAcc<23,2,3,3,4,2,5>;
template struct MulRR<32,2,3,3,4,2,3>; template struct MulAcc<32,2,3,3,4,2,3>; template struct MulRR<8,2,3,3,4,2,3>; template struct MulAcc<8,2,3,3,4,2,3>; template struct MulRR<0,2,3,3,4,2,3>;
template struct MulAcc<0,2,3,3,4,2,3>; template struct MulRR<55,2,3,3,4,2,3>; template struct MulAcc<55,2,3,3,4,2,3>; template struct MulRR<31,2,3,3,4,2,3>; template struct MulAcc<31,2,3,3,4,2,3>;
template struct MulRR<23,2,3,3,4,2,3>; template struct MulAcc<23,2,3,3,4,2,3>; template struct MulCR<0,2,3,3,2,2,2>; template struct MulGD<0,2,3,3,2,2,2>; template struct MulDG<0,2,3,3,2,2,2>;
template struct MulGG<0,2,3,3,2,2,2>; template struct MulGGG<0,2,3,3,2,2,2>; template struct MulCR<63,2,3,3,2,2,2>; template struct MulGD<63,2,3,3,2,2,2>; template struct MulDG<63,2,3,3,2,2,2>;
template struct MulGG<63,2,3,3,2,2,2>; template struct MulGGG<63,2,3,3,2,2,2>; template struct MulCR<62,2,3,3,2,2,2>; template struct MulGD<62,2,3,3,2,2,2>; template struct MulDG<62,2,3,3,2,2,2>;
template struct MulGG<62,2,3,3,2,2,2>; template struct MulGGG<62,2,3,3,2,2,2>; template struct MulCR<61,2,3,3,2,2,2>; template struct MulGD<61,2,3,3,2,2,2>; template struct MulDG<61,2,3,3,2,2,2>;
template struct MulGG<61,2,3,3,2,2,2>; template struct MulGGG<61,2,3,3,2,2,2>; template struct MulCR<59,2,3,3,2,2,2>; template struct MulGD<59,2,3,3,2,2,2>; template struct MulDG<59,2,3,3,2,2,2>;
template struct MulGG<59,2,3,3,2,2,2>; template struct MulGGG<59,2,3,3,2,2,2>; template struct MulCR<55,2,3,3,2,2,2>; template struct MulGD<55,2,3,3,2,2,2>; template struct MulDG<55,2,3,3,2,2,2>;
template struct MulGG<55,2,3,3,2,2,2>; template struct MulGGG<55,2,3,3,2,2,2>; template struct MulCR<47,2,3,3,2,2,2>; template struct MulGD<47,2,3,3,2,2,2>; template struct MulDG<47,2,3,3,2,2,2>;
template struct MulGG<47,2,3,3,2,2,2>; template struct MulGGG<47,2,3,3,2,2,2>; template struct MulCR<31,2,3,3,2,2,2>; template struct MulGD<31,2,3,3,2,2,2>; template struct MulDG<31,2,3,3,2,2,2>;
template struct MulGG<31,2,3,3,2,2,2>; template struct MulGGG<31,2,3,3,2,2,2>; template struct MulCR<16,3,3,3,2,2,2>; template struct MulGD<16,3,3,3,2,2,2>; template struct MulDG<16,3,3,3,2,2,2>;
template struct MulGG<16,3,3,3,2,2,2>; template struct MulGGG<16,3,3,3,2,2,2>; template struct MulCR<1,3,3,3,2,2,2>; template struct MulGD<1,3,3,3,2,2,2>; template struct MulDG<1,3,3,3,2,2,2>;
template struct MulGG<1,3,3,3,2,2,2>; template struct MulGGG<1,3,3,3,2,2,2>; template struct MulCR<0,3,3,3,2,2,2>; template struct MulGD<0,3,3,3,2,2,2>; template struct MulDG<0,3,3,3,2,2,2>;
template struct MulGG<0,3,3,3,2,2,2>; template struct MulGGG<0,3,3,3,2,2,2>; template struct MulCR<62,3,3,3,2,2,2>; template struct MulGD<62,3,3,3,2,2,2>; template struct MulDG<62,3,3,3,2,2,2>;
template struct MulGG<62,3,3,3,2,2,2>; template struct MulGGG<62,3,3,3,2,2,2>; template struct MulCR<47,3,3,3,2,2,2>; template struct MulGD<47,3,3,3,2,2,2>; template struct MulDG<47,3,3,3,2,2,2>;
template struct MulGG<47,3,3,3,2,2,2>; template struct MulGGG<47,3,3,3,2,2,2>; template struct MulCR<46,3,3,3,2,2,2>; template struct MulGD<46,3,3,3,2,2,2>; template struct MulDG<46,3,3,3,2,2,2>;
template struct MulGG<46,3,3,3,2,2,2>; template struct MulGGG<46,3,3,3,2,2,2>; template struct MulCR<16,2,3,3,2,3,2>; template struct MulGD<16,2,3,3,2,3,2>; template struct MulDG<16,2,3,3,2,3,2>;
template struct MulGG<16,2,3,3,2,3,2>; template struct MulGGG<16,2,3,3,2,3,2>; template struct MulCR<1,2,3,3,2,3,2>; template struct MulGD<1,2,3,3,2,3,2>; template struct MulDG<1,2,3,3,2,3,2>;
template struct MulGG<1,2,3,3,2,3,2>; template struct MulGGG<1,2,3,3,2,3,2>; template struct MulCR<0,2,3,3,2,3,2>; template struct MulGD<0,2,3,3,2,3,2>; template struct MulDG<0,2,3,3,2,3,2>;
template struct MulGG<0,2,3,3,2,3,2>; template struct MulGGG<0,2,3,3,2,3,2>; template struct MulCR<62,2,3,3,2,3,2>; template struct MulGD<62,2,3,3,2,3,2>; template struct MulDG<62,2,3,3,2,3,2>;
template struct MulGG<62,2,3,3,2,3,2>; template struct MulGGG<62,2,3,3,2,3,2>; template struct MulCR<47,2,3,3,2,3,2>; template struct MulGD<47,2,3,3,2,3,2>; template struct MulDG<47,2,3,3,2,3,2>;
template struct MulGG<47,2,3,3,2,3,2>; template struct MulGGG<47,2,3,3,2,3,2>; template struct MulCR<46,2,3,3,2,3,2>; template struct MulGD<46,2,3,3,2,3,2>; template struct MulDG<46,2,3,3,2,3,2>;
template struct MulGG<46,2,3,3,2,3,2>; template struct MulGGG<46,2,3,3,2,3,2>; template struct MulCR<4,2,4,3,2,2,2>; template struct MulGD<4,2,4,3,2,2,2>; template struct MulDG<4,2,4,3,2,2,2>;
template struct MulGG<4,2,4,3,2,2,2>; template struct MulGGG<4,2,4,3,2,2,2>; template struct MulCR<2,2,4,3,2,2,2>; template struct MulGD<2,2,4,3,2,2,2>; template struct MulDG<2,2,4,3,2,2,2>;
template struct MulGG<2,2,4,3,2,2,2>; template struct MulGGG<2,2,4,3,2,2,2>; template struct MulCR<0,2,4,3,2,2,2>; template struct MulGD<0,2,4,3,2,2,2>; template struct MulDG<0,2,4,3,2,2,2>;
template struct MulGG<0,2,4,3,2,2,2>; template struct MulGGG<0,2,4,3,2,2,2>; template struct MulCR<61,2,4,3,2,2,2>; template struct MulGD<61,2,4,3,2,2,2>; template struct MulDG<61,2,4,3,2,2,2>;
template struct MulGG<61,2,4,3,2,2,2>; template struct MulGGG<61,2,4,3,2,2,2>; template struct MulCR<59,2,4,3,2,2,2>; template struct MulGD<59,2,4,3,2,2,2>; template struct MulDG<59,2,4,3,2,2,2>;
template struct MulGG<59,2,4,3,2,2,2>; template struct MulGGG<59,2,4,3,2,2,2>; template struct MulCR<57,2,4,3,2,2,2>; template struct MulGD<57,2,4,3,2,2,2>; template struct MulDG<57,2,4,3,2,2,2>;
template struct MulGG<57,2,4,3,2,2,2>; template struct MulGGG<57,2,4,3,2,2,2>; template struct MulCR<4,2,3,4,2,2,2>; template struct MulGD<4,2,3,4,2,2,2>; template struct MulDG<4,2,3,4,2,2,2>;
template struct MulGG<4,2,3,4,2,2,2>; template struct MulGGG<4,2,3,4,2,2,2>; template struct MulCR<2,2,3,4,2,2,2>; template struct MulGD<2,2,3,4,2,2,2>; template struct MulDG<2,2,3,4,2,2,2>;
template struct MulGG<2,2,3,4,2,2,2>; template struct MulGGG<2,2,3,4,2,2,2>; template struct MulCR<0,2,3,4,2,2,2>; template struct MulGD<0,2,3,4,2,2,2>; template struct MulDG<0,2,3,4,2,2,2>;
template struct MulGG<0,2,3,4,2,2,2>; template struct MulGGG<0,2,3,4,2,2,2>; template struct MulCR<61,2,3,4,2,2,2>; template struct MulGD<61,2,3,4,2,2,2>; template struct MulDG<61,2,3,4,2,2,2>;
template struct MulGG<61,2,3,4,2,2,2>; template struct MulGGG<61,2,3,4,2,2,2>; template struct MulCR<59,2,3,4,2,2,2>; template struct MulGD<59,2,3,4,2,2,2>; template struct MulDG<59,2,3,4,2,2,2>;
template struct MulGG<59,2,3,4,2,2,2>; template struct MulGGG<59,2,3,4,2,2,2>; template struct MulCR<57,2,3,4,2,2,2>; template struct MulGD<57,2,3,4,2,2,2>; template struct MulDG<57,2,3,4,2,2,2>;
template struct MulGG<57,2,3,4,2,2,2>; template struct MulGGG<57,2,3,4,2,2,2>; template struct MulCR<32,2,3,3,3,2,2>; template struct MulGD<32,2,3,3,3,2,2>; template struct MulDG<32,2,3,3,3,2,2>;
template struct MulGG<32,2,3,3,3,2,2>; template struct MulGGG<32,2,3,3,3,2,2>; template struct MulCR<8,2,3,3,3,2,2>; template struct MulGD<8,2,3,3,3,2,2>; template struct MulDG<8,2,3,3,3,2,2>;
template struct MulGG<8,2,3,3,3,2,2>; template struct MulGGG<8,2,3,3,3,2,2>; template struct MulCR<0,2,3,3,3,2,2>; template struct MulGD<0,2,3,3,3,2,2>; template struct MulDG<0,2,3,3,3,2,2>;
template struct MulGG<0,2,3,3,3,2,2>; template struct MulGGG<0,2,3,3,3,2,2>; template struct MulCR<55,2,3,3,3,2,2>; template struct MulGD<55,2,3,3,3,2,2>; template struct MulDG<55,2,3,3,3,2,2>;
template struct MulGG<55,2,3,3,3,2,2>; template struct MulGGG<55,2,3,3,3,2,2>; template struct MulCR<31,2,3,3,3,2,2>; template struct MulGD<31,2,3,3,3,2,2>; template struct MulDG<31,2,3,3,3,2,2>;
template struct MulGG<31,2,3,3,3,2,2>; template struct MulGGG<31,2,3,3,3,2,2>; template struct MulCR<23,2,3,3,3,2,2>; template struct MulGD<23,2,3,3,3,2,2>; template struct MulDG<23,2,3,3,3,2,2>;
template struct MulGG<23,2,3,3,3,2,2>; template struct MulGGG<23,2,3,3,3,2,2>; template struct MulCR<32,2,3,3,2,2,3>; template struct MulGD<32,2,3,3,2,2,3>; template struct MulDG<32,2,3,3,2,2,3>;
template struct MulGG<32,2,3,3,2,2,3>; template struct MulGGG<32,2,3,3,2,2,3>; template struct MulCR<8,2,3,3,2,2,3>; template struct MulGD<8,2,3,3,2,2,3>; template struct MulDG<8,2,3,3,2,2,3>;
template struct MulGG<8,2,3,3,2,2,3>; template struct MulGGG<8,2,3,3,2,2,3>; template struct MulCR<0,2,3,3,2,2,3>; template struct MulGD<0,2,3,3,2,2,3>; template struct MulDG<0,2,3,3,2,2,3>;
template struct MulGG<0,2,3,3,2,2,3>; template struct MulGGG<0,2,3,3,2,2,3>; template struct MulCR<55,2,3,3,2,2,3>; template struct MulGD<55,2,3,3,2,2,3>; template struct MulDG<55,2,3,3,2,2,3>;
template struct MulGG<55,2,3,3,2,2,3>; template struct MulGGG<55,2,3,3,2,2,3>; template struct MulCR<31,2,3,3,2,2,3>; template struct MulGD<31,2,3,3,2,2,3>; template struct MulDG<31,2,3,3,2,2,3>;
template struct MulGG<31,2,3,3,2,2,3>; template struct MulGGG<31,2,3,3,2,2,3>; template struct MulCR<23,2,3,3,2,2,3>; template struct MulGD<23,2,3,3,2,2,3>; template struct MulDG<23,2,3,3,2,2,3>;
template struct MulGG<23,2,3,3,2,2,3>; template struct MulGGG<23,2,3,3,2,2,3>; template struct AddInto<0,2,3,2,3,2,3>; template struct SubInto<0,2,3,2,3,2,3>; template struct AddInto<63,2,3,2,3,2,3>;
template struct SubInto<63,2,3,2,3,2,3>; template struct AddInto<62,2,3,2,3,2,3>; template struct SubInto<62,2,3,2,3,2,3>; template struct AddInto<61,2,3,2,3,2,3>; template struct SubInto<61,2,3,2,3,2,3>;
template struct AddInto<59,2,3,2,3,2,3>; template struct SubInto<59,2,3,2,3,2,3>; template struct AddInto<55,2,3,2,3,2,3>; template struct SubInto<55,2,3,2,3,2,3>; template struct AddInto<47,2,3,2,3,2,3>;
template struct SubInto<47,2,3,2,3,2,3>; template struct AddInto<31,2,3,2,3,2,3>; template struct SubInto<31,2,3,2,3,2,3>; template struct AddInto<1,2,3,2,3,2,3>; template struct SubInto<1,2,3,2,3,2,3>;
template struct AddInto<2,2,3,2,3,2,3>; template struct SubInto<2,2,3,2,3,2,3>; template struct AddInto<4,2,3,2,3,2,3>; template struct SubInto<4,2,3,2,3,2,3>; template struct AddInto<8,2,3,2,3,2,3>;
template struct SubInto<8,2,3,2,3,2,3>; template struct AddInto<16,2,3,2,3,2,3>; template struct SubInto<16,2,3,2,3,2,3>; template struct AddInto<32,2,3,2,3,2,3>; template struct SubInto<32,2,3,2,3,2,3>;
template struct AddInto<4,3,3,2,3,2,3>; template struct SubInto<4,3,3,2,3,2,3>; template struct AddInto<1,3,3,2,3,2,3>; template struct SubInto<1,3,3,2,3,2,3>; template struct AddInto<0,3,3,2,3,2,3>;
template struct SubInto<0,3,3,2,3,2,3>; template struct AddInto<62,3,3,2,3,2,3>; template struct SubInto<62,3,3,2,3,2,3>; template struct AddInto<43,3,3,2,3,2,3>; template struct SubInto<43,3,3,2,3,2,3>;
template struct AddInto<58,3,3,2,3,2,3>; template struct SubInto<58,3,3,2,3,2,3>; template struct AddInto<4,1,3,2,3,2,3>; template struct SubInto<4,1,3,2,3,2,3>; template struct AddInto<1,1,3,2,3,2,3>;
template struct SubInto<1,1,3,2,3,2,3>; template struct AddInto<0,1,3,2,3,2,3>; template struct SubInto<0,1,3,2,3,2,3>; template struct AddInto<62,1,3,2,3,2,3>; template struct SubInto<62,1,3,2,3,2,3>;
template struct AddInto<43,1,3,2,3,2,3>; template struct SubInto<43,1,3,2,3,2,3>; template struct AddInto<58,1,3,2,3,2,3>; template struct SubInto<58,1,3,2,3,2,3>; template struct AddInto<4,2,3,3,3,2,3>;
template struct SubInto<4,2,3,3,3,2,3>; template struct AddInto<1,2,3,3,3,2,3>; template struct SubInto<1,2,3,3,3,2,3>; template struct AddInto<0,2,3,3,3,2,3>; template struct SubInto<0,2,3,3,3,2,3>;
template struct AddInto<46,2,3,3,3,2,3>; template struct SubInto<46,2,3,3,3,2,3>; template struct AddInto<59,2,3,3,3,2,3>; template struct SubInto<59,2,3,3,3,2,3>; template struct AddInto<58,2,3,3,3,2,3>;
template struct SubInto<58,2,3,3,3,2,3>; template struct AddInto<4,2,3,1,3,2,3>; template struct SubInto<4,2,3,1,3,2,3>; template struct AddInto<1,2,3,1,3,2,3>; template struct SubInto<1,2,3,1,3,2,3>;
template struct AddInto<0,2,3,1,3,2,3>; template struct SubInto<0,2,3,1,3,2,3>; template struct AddInto<46,2,3,1,3,2,3>; template struct SubInto<46,2,3,1,3,2,3>; template struct AddInto<59,2,3,1,3,2,3>;
template struct SubInto<59,2,3,1,3,2,3>; template struct AddInto<58,2,3,1,3,2,3>; template struct SubInto<58,2,3,1,3,2,3>; template struct AddInto<8,2,4,2,3,2,3>; template struct SubInto<8,2,4,2,3,2,3>;
template struct AddInto<2,2,4,2,3,2,3>; template struct SubInto<2,2,4,2,3,2,3>; template struct AddInto<0,2,4,2,3,2,3>; template struct SubInto<0,2,4,2,3,2,3>; template struct AddInto<61,2,4,2,3,2,3>;
template struct SubInto<61,2,4,2,3,2,3>; template struct AddInto<23,2,4,2,3,2,3>; template struct SubInto<23,2,4,2,3,2,3>; template struct AddInto<53,2,4,2,3,2,3>; template struct SubInto<53,2,4,2,3,2,3>;
template struct AddInto<8,2,2,2,3,2,3>; template struct SubInto<8,2,2,2,3,2,3>; template struct AddInto<2,2,2,2,3,2,3>; template struct SubInto<2,2,2,2,3,2,3>; template struct AddInto<0,2,2,2,3,2,3>;
template struct SubInto<0,2,2,2,3,2,3>; template struct AddInto<61,2,2,2,3,2,3>; template struct SubInto<61,2,2,2,3,2,3>; template struct AddInto<23,2,2,2,3,2,3>; template struct SubInto<23,2,2,2,3,2,3>;
template struct AddInto<53,2,2,2,3,2,3>; template struct SubInto<53,2,2,2,3,2,3>; template struct AddInto<8,2,3,2,4,2,3>; template struct SubInto<8,2,3,2,4,2,3>; template struct AddInto<2,2,3,2,4,2,3>;
template struct SubInto<2,2,3,2,4,2,3>; template struct AddInto<0,2,3,2,4,2,3>; template struct SubInto<0,2,3,2,4,2,3>; template struct AddInto<29,2,3,2,4,2,3>; template struct SubInto<29,2,3,2,4,2,3>;
template struct AddInto<55,2,3,2,4,2,3>; template struct SubInto<55,2,3,2,4,2,3>; template struct AddInto<53,2,3,2,4,2,3>; template struct SubInto<53,2,3,2,4,2,3>; template struct AddInto<8,2,3,2,2,2,3>;
template struct SubInto<8,2,3,2,2,2,3>; template struct AddInto<2,2,3,2,2,2,3>; template struct SubInto<2,2,3,2,2,2,3>; template struct AddInto<0,2,3,2,2,2,3>; template struct SubInto<0,2,3,2,2,2,3>;
template struct AddInto<29,2,3,2,2,2,3>; template struct SubInto<29,2,3,2,2,2,3>; template struct AddInto<55,2,3,2,2,2,3>; template struct SubInto<55,2,3,2,2,2,3>; template struct AddInto<53,2,3,2,2,2,3>;
template struct SubInto<53,2,3,2,2,2,3>; template struct AddInto<16,3,3,2,3,2,3>; template struct SubInto<16,3,3,2,3,2,3>; template struct AddInto<46,3,3,2,3,2,3>; template struct SubInto<46,3,3,2,3,2,3>;
template struct AddInto<16,1,3,2,3,2,3>; template struct SubInto<16,1,3,2,3,2,3>; template struct AddInto<46,1,3,2,3,2,3>; template struct SubInto<46,1,3,2,3,2,3>; template struct AddInto<16,2,3,2,3,3,3>;
template struct SubInto<16,2,3,2,3,3,3>; template struct AddInto<1,2,3,2,3,3,3>; template struct SubInto<1,2,3,2,3,3,3>; template struct AddInto<0,2,3,2,3,3,3>; template struct SubInto<0,2,3,2,3,3,3>;
template struct AddInto<58,2,3,2,3,3,3>; template struct SubInto<58,2,3,2,3,3,3>; template struct AddInto<47,2,3,2,3,3,3>; template struct SubInto<47,2,3,2,3,3,3>; template struct AddInto<46,2,3,2,3,3,3>;
template struct SubInto<46,2,3,2,3,3,3>; template struct AddInto<16,2,3,2,3,1,3>; template struct SubInto<16,2,3,2,3,1,3>; template struct AddInto<1,2,3,2,3,1,3>; template struct SubInto<1,2,3,2,3,1,3>;
template struct AddInto<0,2,3,2,3,1,3>; template struct SubInto<0,2,3,2,3,1,3>; template struct AddInto<58,2,3,2,3,1,3>; template struct SubInto<58,2,3,2,3,1,3>; template struct AddInto<47,2,3,2,3,1,3>;
template struct SubInto<47,2,3,2,3,1,3>; template struct AddInto<46,2,3,2,3,1,3>; template struct SubInto<46,2,3,2,3,1,3>; template struct AddInto<32,2,4,2,3,2,3>; template struct SubInto<32,2,4,2,3,2,3>;
template struct AddInto<29,2,4,2,3,2,3>; template struct SubInto<29,2,4,2,3,2,3>; template struct AddInto<32,2,2,2,3,2,3>; template struct SubInto<32,2,2,2,3,2,3>; template struct AddInto<29,2,2,2,3,2,3>;
template struct SubInto<29,2,2,2,3,2,3>; template struct AddInto<32,2,3,2,3,2,4>; template struct SubInto<32,2,3,2,3,2,4>; template struct AddInto<2,2,3,2,3,2,4>; template struct SubInto<2,2,3,2,3,2,4>;
template struct AddInto<0,2,3,2,3,2,4>; template struct SubInto<0,2,3,2,3,2,4>; template struct AddInto<53,2,3,2,3,2,4>; template struct SubInto<53,2,3,2,3,2,4>; template struct AddInto<31,2,3,2,3,2,4>;
template struct SubInto<31,2,3,2,3,2,4>; template struct AddInto<29,2,3,2,3,2,4>; template struct SubInto<29,2,3,2,3,2,4>; template struct AddInto<32,2,3,2,3,2,2>; template struct SubInto<32,2,3,2,3,2,2>;
template struct AddInto<2,2,3,2,3,2,2>; template struct SubInto<2,2,3,2,3,2,2>; template struct AddInto<0,2,3,2,3,2,2>; template struct SubInto<0,2,3,2,3,2,2>; template struct AddInto<53,2,3,2,3,2,2>;
template struct SubInto<53,2,3,2,3,2,2>; template struct AddInto<31,2,3,2,3,2,2>; template struct SubInto<31,2,3,2,3,2,2>; template struct AddInto<29,2,3,2,3,2,2>; template struct SubInto<29,2,3,2,3,2,2>;
template struct AddInto<16,2,3,3,3,2,3>; template struct SubInto<16,2,3,3,3,2,3>; template struct AddInto<43,2,3,3,3,2,3>; template struct SubInto<43,2,3,3,3,2,3>; template struct AddInto<16,2,3,1,3,2,3>;
template struct SubInto<16,2,3,1,3,2,3>; template struct AddInto<43,2,3,1,3,2,3>; template struct SubInto<43,2,3,1,3,2,3>; template struct AddInto<4,2,3,2,3,3,3>; template struct SubInto<4,2,3,2,3,3,3>;
template struct AddInto<43,2,3,2,3,3,3>; template struct SubInto<43,2,3,2,3,3,3>; template struct AddInto<4,2,3,2,3,1,3>; template struct SubInto<4,2,3,2,3,1,3>; template struct AddInto<43,2,3,2,3,1,3>;
template struct SubInto<43,2,3,2,3,1,3>; template struct AddInto<32,2,3,2,4,2,3>; template struct SubInto<32,2,3,2,4,2,3>; template struct AddInto<23,2,3,2,4,2,3>; template struct SubInto<23,2,3,2,4,2,3>;
template struct AddInto<32,2,3,2,2,2,3>; template struct SubInto<32,2,3,2,2,2,3>; template struct AddInto<23,2,3,2,2,2,3>; template struct SubInto<23,2,3,2,2,2,3>; template struct AddInto<8,2,3,2,3,2,4>;
template struct SubInto<8,2,3,2,3,2,4>; template struct AddInto<23,2,3,2,3,2,4>; template struct SubInto<23,2,3,2,3,2,4>; template struct AddInto<8,2,3,2,3,2,2>; template struct SubInto<8,2,3,2,3,2,2>;
template struct AddInto<23,2,3,2,3,2,2>; template struct SubInto<23,2,3,2,3,2,2>; template struct AddIntoC<0,3,2,3,2,3,2>; template struct AddG<0,3,2,3,2,3,2>; template struct SubG<0,3,2,3,2,3,2>;
template struct AddIntoC<63,3,2,3,2,3,2>; template struct AddG<63,3,2,3,2,3,2>; template struct SubG<63,3,2,3,2,3,2>; template struct AddIntoC<62,3,2,3,2,3,2>; template struct AddG<62,3,2,3,2,3,2>;
template struct SubG<62,3,2,3,2,3,2>; template struct AddIntoC<61,3,2,3,2,3,2>; template struct AddG<61,3,2,3,2,3,2>; template struct SubG<61,3,2,3,2,3,2>; template struct AddIntoC<59,3,2,3,2,3,2>;
template struct AddG<59,3,2,3,2,3,2>; template struct SubG<59,3,2,3,2,3,2>; template struct AddIntoC<55,3,2,3,2,3,2>; template struct AddG<55,3,2,3,2,3,2>; template struct SubG<55,3,2,3,2,3,2>;
template struct AddIntoC<47,3,2,3,2,3,2>; template struct AddG<47,3,2,3,2,3,2>; template struct SubG<47,3,2,3,2,3,2>; template struct AddIntoC<31,3,2,3,2,3,2>; template struct AddG<31,3,2,3,2,3,2>;
template struct SubG<31,3,2,3,2,3,2>; template struct AddIntoC<4,4,2,3,2,3,2>; template struct AddG<4,4,2,3,2,3,2>; template struct SubG<4,4,2,3,2,3,2>; template struct AddIntoC<1,4,2,3,2,3,2>;
template struct AddG<1,4,2,3,2,3,2>; template struct SubG<1,4,2,3,2,3,2>; template struct AddIntoC<0,4,2,3,2,3,2>; template struct AddG<0,4,2,3,2,3,2>; template struct SubG<0,4,2,3,2,3,2>;
template struct AddIntoC<62,4,2,3,2,3,2>; template struct AddG<62,4,2,3,2,3,2>; template struct SubG<62,4,2,3,2,3,2>; template struct AddIntoC<43,4,2,3,2,3,2>; template struct AddG<43,4,2,3,2,3,2>;
template struct SubG<43,4,2,3,2,3,2>; template struct AddIntoC<58,4,2,3,2,3,2>; template struct AddG<58,4,2,3,2,3,2>; template struct SubG<58,4,2,3,2,3,2>; template struct AddIntoC<4,3,2,4,2,3,2>;
template struct AddG<4,3,2,4,2,3,2>; template struct SubG<4,3,2,4,2,3,2>; template struct AddIntoC<1,3,2,4,2,3,2>; template struct AddG<1,3,2,4,2,3,2>; template struct SubG<1,3,2,4,2,3,2>;
template struct AddIntoC<0,3,2,4,2,3,2>; template struct AddG<0,3,2,4,2,3,2>; template struct SubG<0,3,2,4,2,3,2>; template struct AddIntoC<46,3,2,4,2,3,2>; template struct AddG<46,3,2,4,2,3,2>;
template struct SubG<46,3,2,4,2,3,2>; template struct AddIntoC<59,3,2,4,2,3,2>; template struct AddG<59,3,2,4,2,3,2>; template struct SubG<59,3,2,4,2,3,2>; template struct AddIntoC<58,3,2,4,2,3,2>;
template struct AddG<58,3,2,4,2,3,2>; template struct SubG<58,3,2,4,2,3,2>; template struct AddIntoC<8,3,3,3,2,3,2>; template struct AddG<8,3,3,3,2,3,2>; template struct SubG<8,3,3,3,2,3,2>;
template struct AddIntoC<2,3,3,3,2,3,2>; template struct AddG<2,3,3,3,2,3,2>; template struct SubG<2,3,3,3,2,3,2>; template struct AddIntoC<0,3,3,3,2,3,2>; template struct AddG<0,3,3,3,2,3,2>;
template struct SubG<0,3,3,3,2,3,2>; template struct AddIntoC<61,3,3,3,2,3,2>; template struct AddG<61,3,3,3,2,3,2>; template struct SubG<61,3,3,3,2,3,2>; template struct AddIntoC<23,3,3,3,2,3,2>;
template struct AddG<23,3,3,3,2,3,2>; template struct SubG<23,3,3,3,2,3,2>; template struct AddIntoC<53,3,3,3,2,3,2>; template struct AddG<53,3,3,3,2,3,2>; template struct SubG<53,3,3,3,2,3,2>;
template struct AddIntoC<8,3,2,3,3,3,2>; template struct AddG<8,3,2,3,3,3,2>; template struct SubG<8,3,2,3,3,3,2>; template struct AddIntoC<2,3,2,3,3,3,2>; template struct AddG<2,3,2,3,3,3,2>;
template struct SubG<2,3,2,3,3,3,2>; template struct AddIntoC<0,3,2,3,3,3,2>; template struct AddG<0,3,2,3,3,3,2>; template struct SubG<0,3,2,3,3,3,2>; template struct AddIntoC<29,3,2,3,3,3,2>;
template struct AddG<29,3,2,3,3,3,2>; template struct SubG<29,3,2,3,3,3,2>; template struct AddIntoC<55,3,2,3,3,3,2>; template struct AddG<55,3,2,3,3,3,2>; template struct SubG<55,3,2,3,3,3,2>;
template struct AddIntoC<53,3,2,3,3,3,2>; template struct AddG<53,3,2,3,3,3,2>; template struct SubG<53,3,2,3,3,3,2>; template struct AddIntoC<16,4,2,3,2,3,2>; template struct AddG<16,4,2,3,2,3,2>;
template struct SubG<16,4,2,3,2,3,2>; template struct AddIntoC<46,4,2,3,2,3,2>; template struct AddG<46,4,2,3,2,3,2>; template struct SubG<46,4,2,3,2,3,2>; template struct AddIntoC<16,3,2,3,2,4,2>;
template struct AddG<16,3,2,3,2,4,2>; template struct SubG<16,3,2,3,2,4,2>; template struct AddIntoC<1,3,2,3,2,4,2>; template struct AddG<1,3,2,3,2,4,2>; template struct SubG<1,3,2,3,2,4,2>;
template struct AddIntoC<0,3,2,3,2,4,2>; template struct AddG<0,3,2,3,2,4,2>; template struct SubG<0,3,2,3,2,4,2>; template struct AddIntoC<58,3,2,3,2,4,2>; template struct AddG<58,3,2,3,2,4,2>;
template struct SubG<58,3,2,3,2,4,2>; template struct AddIntoC<47,3,2,3,2,4,2>; template struct AddG<47,3,2,3,2,4,2>; template struct SubG<47,3,2,3,2,4,2>; template struct AddIntoC<46,3,2,3,2,4,2>;
template struct AddG<46,3,2,3,2,4,2>; template struct SubG<46,3,2,3,2,4,2>; template struct AddIntoC<32,3,3,3,2,3,2>; template struct AddG<32,3,3,3,2,3,2>; template struct SubG<32,3,3,3,2,3,2>;
template struct AddIntoC<29,3,3,3,2,3,2>; template struct AddG<29,3,3,3,2,3,2>; template struct SubG<29,3,3,3,2,3,2>; template struct AddIntoC<32,3,2,3,2,3,3>; template struct AddG<32,3,2,3,2,3,3>;
template struct SubG<32,3,2,3,2,3,3>; template struct AddIntoC<2,3,2,3,2,3,3>; template struct AddG<2,3,2,3,2,3,3>; template struct SubG<2,3,2,3,2,3,3>; template struct AddIntoC<0,3,2,3,2,3,3>;
template struct AddG<0,3,2,3,2,3,3>; template struct SubG<0,3,2,3,2,3,3>; template struct AddIntoC<53,3,2,3,2,3,3>; template struct AddG<53,3,2,3,2,3,3>; template struct SubG<53,3,2,3,2,3,3>;
template struct AddIntoC<31,3,2,3,2,3,3>; template struct AddG<31,3,2,3,2,3,3>; template struct SubG<31,3,2,3,2,3,3>; template struct AddIntoC<29,3,2,3,2,3,3>; template struct AddG<29,3,2,3,2,3,3>;
template struct SubG<29,3,2,3,2,3,3>; template struct AddIntoC<16,3,2,4,2,3,2>; template struct AddG<16,3,2,4,2,3,2>; template struct SubG<16,3,2,4,2,3,2>; template struct AddIntoC<43,3,2,4,2,3,2>;
template struct AddG<43,3,2,4,2,3,2>; template struct SubG<43,3,2,4,2,3,2>; template struct AddIntoC<4,3,2,3,2,4,2>; template struct AddG<4,3,2,3,2,4,2>; template struct SubG<4,3,2,3,2,4,2>;
template struct AddIntoC<43,3,2,3,2,4,2>; template struct AddG<43,3,2,3,2,4,2>; template struct SubG<43,3,2,3,2,4,2>; template struct AddIntoC<32,3,2,3,3,3,2>; template struct AddG<32,3,2,3,3,3,2>;
template struct SubG<32,3,2,3,3,3,2>; template struct AddIntoC<23,3,2,3,3,3,2>; template struct AddG<23,3,2,3,3,3,2>; template struct SubG<23,3,2,3,3,3,2>; template struct AddIntoC<8,3,2,3,2,3,3>;
template struct AddG<8,3,2,3,2,3,3>; template struct SubG<8,3,2,3,2,3,3>; template struct AddIntoC<23,3,2,3,2,3,3>; template struct AddG<23,3,2,3,2,3,3>; template struct SubG<23,3,2,3,2,3,3>;
template struct MulNew<0,2,3,3,4>; template struct MulNew<15,2,3,3,4>; template struct MulNew<14,2,3,3,4>; template struct MulNew<13,2,3,3,4>; template struct MulNew<11,2,3,3,4>; template struct MulNew<7,2,3,3,4>;
template struct MulNew<1,2,3,3,4>; template struct MulNew<2,2,3,3,4>; template struct MulNew<4,2,3,3,4>; template struct MulNew<8,2,3,3,4>; template struct MulNew<4,2,4,3,4>; template struct MulNew<2,2,4,3,4>;
template struct MulNew<0,2,4,3,4>; template struct MulNew<13,2,4,3,4>; template struct MulNew<11,2,4,3,4>; template struct MulNew<9,2,4,3,4>; template struct MulNew<4,2,2,3,4>; template struct MulNew<2,2,2,3,4>;
template struct MulNew<0,2,2,3,4>; template struct MulNew<13,2,2,3,4>; template struct MulNew<11,2,2,3,4>; template struct MulNew<9,2,2,3,4>; template struct MulNew<4,2,3,4,4>; template struct MulNew<2,2,3,4,4>;
template struct MulNew<0,2,3,4,4>; template struct MulNew<13,2,3,4,4>; template struct MulNew<11,2,3,4,4>; template struct MulNew<9,2,3,4,4>; template struct MulNew<4,2,3,2,4>; template struct MulNew<2,2,3,2,4>;
template struct MulNew<0,2,3,2,4>; template struct MulNew<13,2,3,2,4>; template struct MulNew<11,2,3,2,4>; template struct MulNew<9,2,3,2,4>; template struct MulNewG<0,2,3,3,2>; template struct MulNewG<15,2,3,3,2>;
template struct MulNewG<14,2,3,3,2>; template struct MulNewG<13,2,3,3,2>; template struct MulNewG<11,2,3,3,2>; template struct MulNewG<7,2,3,3,2>; template struct MulNewG<1,2,3,3,2>; template struct MulNewG<2,2,3,3,2>;
template struct MulNewG<4,2,3,3,2>; template struct MulNewG<8,2,3,3,2>; template struct MulNewG<4,2,4,3,2>; template struct MulNewG<2,2,4,3,2>; template struct MulNewG<0,2,4,3,2>; template struct MulNewG<13,2,4,3,2>;
template struct MulNewG<11,2,4,3,2>; template struct MulNewG<9,2,4,3,2>; template struct MulNewG<4,2,2,3,2>; template struct MulNewG<2,2,2,3,2>; template struct MulNewG<0,2,2,3,2>; template struct MulNewG<13,2,2,3,2>;
template struct MulNewG<11,2,2,3,2>; template struct MulNewG<9,2,2,3,2>; template struct MulNewG<4,2,3,4,2>; template struct MulNewG<2,2,3,4,2>; template struct MulNewG<0,2,3,4,2>; template struct MulNewG<13,2,3,4,2>;
template struct MulNewG<11,2,3,4,2>; template struct MulNewG<9,2,3,4,2>; template struct MulNewG<4,2,3,2,2>; template struct MulNewG<2,2,3,2,2>; template struct MulNewG<0,2,3,2,2>; template struct MulNewG<13,2,3,2,2>;
template struct MulNewG<11,2,3,2,2>; template struct MulNewG<9,2,3,2,2>; template struct AddNew<0,2,3,2,3>; template struct SubNew<0,2,3,2,3>; template struct OpAdd<0,2,3,2,3>; template struct OpSub<0,2,3,2,3>;
template struct AddNew<15,2,3,2,3>; template struct SubNew<15,2,3,2,3>; template struct OpAdd<15,2,3,2,3>; template struct OpSub<15,2,3,2,3>; template struct AddNew<14,2,3,2,3>; template struct SubNew<14,2,3,2,3>;
template struct OpAdd<14,2,3,2,3>; template struct OpSub<14,2,3,2,3>; template struct AddNew<13,2,3,2,3>; template struct SubNew<13,2,3,2,3>; template struct OpAdd<13,2,3,2,3>; template struct OpSub<13,2,3,2,3>;
template struct AddNew<11,2,3,2,3>; template struct SubNew<11,2,3,2,3>; template struct OpAdd<11,2,3,2,3>; template struct OpSub<11,2,3,2,3>; template struct AddNew<7,2,3,2,3>; template struct SubNew<7,2,3,2,3>;
template struct OpAdd<7,2,3,2,3>; template struct OpSub<7,2,3,2,3>; template struct AddNew<1,2,3,2,3>; template struct SubNew<1,2,3,2,3>; template struct OpAdd<1,2,3,2,3>; template struct OpSub<1,2,3,2,3>;
template struct AddNew<2,2,3,2,3>; template struct SubNew<2,2,3,2,3>; template struct OpAdd<2,2,3,2,3>; template struct OpSub<2,2,3,2,3>; template struct AddNew<4,2,3,2,3>; template struct SubNew<4,2,3,2,3>;
template struct OpAdd<4,2,3,2,3>; template struct OpSub<4,2,3,2,3>; template struct AddNew<8,2,3,2,3>; template struct SubNew<8,2,3,2,3>; template struct OpAdd<8,2,3,2,3>; template struct OpSub<8,2,3,2,3>;
template struct AddNew<4,3,3,2,3>; template struct SubNew<4,3,3,2,3>; template struct OpAdd<4,3,3,2,3>; template struct OpSub<4,3,3,2,3>; template struct AddNew<1,3,3,2,3>; template struct SubNew<1,3,3,2,3>;
template struct OpAdd<1,3,3,2,3>; template struct OpSub<1,3,3,2,3>; template struct AddNew<0,3,3,2,3>; template struct SubNew<0,3,3,2,3>; template struct OpAdd<0,3,3,2,3>; template struct OpSub<0,3,3,2,3>;
template struct AddNew<14,3,3,2,3>; template struct SubNew<14,3,3,2,3>; template struct OpAdd<14,3,3,2,3>; template struct OpSub<14,3,3,2,3>; template struct AddNew<11,3,3,2,3>; template struct SubNew<11,3,3,2,3>;
template struct OpAdd<11,3,3,2,3>; template struct OpSub<11,3,3,2,3>; template struct AddNew<10,3,3,2,3>; template struct SubNew<10,3,3,2,3>; template struct OpAdd<10,3,3,2,3>; template struct OpSub<10,3,3,2,3>;
template struct AddNew<4,1,3,2,3>; template struct SubNew<4,1,3,2,3>; template struct OpAdd<4,1,3,2,3>; template struct OpSub<4,1,3,2,3>; template struct AddNew<1,1,3,2,3>; template struct SubNew<1,1,3,2,3>;
template struct OpAdd<1,1,3,2,3>; template struct OpSub<1,1,3,2,3>; template struct AddNew<0,1,3,2,3>; template struct SubNew<0,1,3,2,3>; template struct OpAdd<0,1,3,2,3>; template struct OpSub<0,1,3,2,3>;
template struct AddNew<14,1,3,2,3>; template struct SubNew<14,1,3,2,3>; template struct OpAdd<14,1,3,2,3>; template struct OpSub<14,1,3,2,3>; template struct AddNew<11,1,3,2,3>; template struct SubNew<11,1,3,2,3>;
template struct OpAdd<11,1,3,2,3>; template struct OpSub<11,1,3,2,3>; template struct AddNew<10,1,3,2,3>; template struct SubNew<10,1,3,2,3>; template struct OpAdd<10,1,3,2,3>; template struct OpSub<10,1,3,2,3>;
template struct AddNew<4,2,3,3,3>; template struct SubNew<4,2,3,3,3>; template struct OpAdd<4,2,3,3,3>; template struct OpSub<4,2,3,3,3>; template struct AddNew<1,2,3,3,3>; template struct SubNew<1,2,3,3,3>;
template struct OpAdd<1,2,3,3,3>; template struct OpSub<1,2,3,3,3>; template struct AddNew<0,2,3,3,3>; template struct SubNew<0,2,3,3,3>; template struct OpAdd<0,2,3,3,3>; template struct OpSub<0,2,3,3,3>;
template struct AddNew<14,2,3,3,3>; template struct SubNew<14,2,3,3,3>; template struct OpAdd<14,2,3,3,3>; template struct OpSub<14,2,3,3,3>; template struct AddNew<11,2,3,3,3>; template struct SubNew<11,2,3,3,3>;
template struct OpAdd<11,2,3,3,3>; template struct OpSub<11,2,3,3,3>; template struct AddNew<10,2,3,3,3>; template struct SubNew<10,2,3,3,3>; template struct OpAdd<10,2,3,3,3>; template struct OpSub<10,2,3,3,3>;
template struct AddNew<4,2,3,1,3>; template struct SubNew<4,2,3,1,3>; template struct OpAdd<4,2,3,1,3>; template struct OpSub<4,2,3,1,3>; template struct AddNew<1,2,3,1,3>; template struct SubNew<1,2,3,1,3>;
template struct OpAdd<1,2,3,1,3>; template struct OpSub<1,2,3,1,3>; template struct AddNew<0,2,3,1,3>; template struct SubNew<0,2,3,1,3>; template struct OpAdd<0,2,3,1,3>; template struct OpSub<0,2,3,1,3>;
template struct AddNew<14,2,3,1,3>; template struct SubNew<14,2,3,1,3>; template struct OpAdd<14,2,3,1,3>; template struct OpSub<14,2,3,1,3>; template struct AddNew<11,2,3,1,3>; template struct SubNew<11,2,3,1,3>;
template struct OpAdd<11,2,3,1,3>; template struct OpSub<11,2,3,1,3>; template struct AddNew<10,2,3,1,3>; template struct SubNew<10,2,3,1,3>; template struct OpAdd<10,2,3,1,3>; template struct OpSub<10,2,3,1,3>;
template struct AddNew<8,2,4,2,3>; template struct SubNew<8,2,4,2,3>; template struct OpAdd<8,2,4,2,3>; template struct OpSub<8,2,4,2,3>; template struct AddNew<2,2,4,2,3>; template struct SubNew<2,2,4,2,3>;
template struct OpAdd<2,2,4,2,3>; template struct OpSub<2,2,4,2,3>; template struct AddNew<0,2,4,2,3>; template struct SubNew<0,2,4,2,3>; template struct OpAdd<0,2,4,2,3>; template struct OpSub<0,2,4,2,3>;
template struct AddNew<13,2,4,2,3>; template struct SubNew<13,2,4,2,3>; template struct OpAdd<13,2,4,2,3>; template struct OpSub<13,2,4,2,3>; template struct AddNew<7,2,4,2,3>; template struct SubNew<7,2,4,2,3>;
template struct OpAdd<7,2,4,2,3>; template struct OpSub<7,2,4,2,3>; template struct AddNew<5,2,4,2,3>; template struct SubNew<5,2,4,2,3>; template struct OpAdd<5,2,4,2,3>; template struct OpSub<5,2,4,2,3>;
template struct AddNew<8,2,2,2,3>; template struct SubNew<8,2,2,2,3>; template struct OpAdd<8,2,2,2,3>; template struct OpSub<8,2,2,2,3>; template struct AddNew<2,2,2,2,3>; template struct SubNew<2,2,2,2,3>;
template struct OpAdd<2,2,2,2,3>; template struct OpSub<2,2,2,2,3>; template struct AddNew<0,2,2,2,3>; template struct SubNew<0,2,2,2,3>; template struct OpAdd<0,2,2,2,3>; template struct OpSub<0,2,2,2,3>;
template struct AddNew<13,2,2,2,3>; template struct SubNew<13,2,2,2,3>; template struct OpAdd<13,2,2,2,3>; template struct OpSub<13,2,2,2,3>; template struct AddNew<7,2,2,2,3>; template struct SubNew<7,2,2,2,3>;
template struct OpAdd<7,2,2,2,3>; template struct OpSub<7,2,2,2,3>; template struct AddNew<5,2,2,2,3>; template struct SubNew<5,2,2,2,3>; template struct OpAdd<5,2,2,2,3>; template struct OpSub<5,2,2,2,3>;
template struct AddNew<8,2,3,2,4>; template struct SubNew<8,2,3,2,4>; template struct OpAdd<8,2,3,2,4>; template struct OpSub<8,2,3,2,4>; template struct AddNew<2,2,3,2,4>; template struct SubNew<2,2,3,2,4>;
template struct OpAdd<2,2,3,2,4>; template struct OpSub<2,2,3,2,4>; template struct AddNew<0,2,3,2,4>; template struct SubNew<0,2,3,2,4>; template struct OpAdd<0,2,3,2,4>; template struct OpSub<0,2,3,2,4>;
template struct AddNew<13,2,3,2,4>; template struct SubNew<13,2,3,2,4>; template struct OpAdd<13,2,3,2,4>; template struct OpSub<13,2,3,2,4>; template struct AddNew<7,2,3,2,4>; template struct SubNew<7,2,3,2,4>;
template struct OpAdd<7,2,3,2,4>; template struct OpSub<7,2,3,2,4>; template struct AddNew<5,2,3,2,4>; template struct SubNew<5,2,3,2,4>; template struct OpAdd<5,2,3,2,4>; template struct OpSub<5,2,3,2,4>;
template struct AddNew<8,2,3,2,2>; template struct SubNew<8,2,3,2,2>; template struct OpAdd<8,2,3,2,2>; template struct OpSub<8,2,3,2,2>; template struct AddNew<2,2,3,2,2>; template struct SubNew<2,2,3,2,2>;
template struct OpAdd<2,2,3,2,2>; template struct OpSub<2,2,3,2,2>; template struct AddNew<0,2,3,2,2>; template struct SubNew<0,2,3,2,2>; template struct OpAdd<0,2,3,2,2>; template struct OpSub<0,2,3,2,2>;
template struct AddNew<13,2,3,2,2>; template struct SubNew<13,2,3,2,2>; template struct OpAdd<13,2,3,2,2>; template struct OpSub<13,2,3,2,2>; template struct AddNew<7,2,3,2,2>; template struct SubNew<7,2,3,2,2>;
template struct OpAdd<7,2,3,2,2>; template struct OpSub<7,2,3,2,2>; template struct AddNew<5,2,3,2,2>; template struct SubNew<5,2,3,2,2>; template struct OpAdd<5,2,3,2,2>; template struct OpSub<5,2,3,2,2>;
template struct AddNG<0,3,2,3,2>; template struct SubNG<0,3,2,3,2>; template struct AddNG<15,3,2,3,2>; template struct SubNG<15,3,2,3,2>; template struct AddNG<14,3,2,3,2>; template struct SubNG<14,3,2,3,2>;
template struct AddNG<13,3,2,3,2>; template struct SubNG<13,3,2,3,2>; template struct AddNG<11,3,2,3,2>; template struct SubNG<11,3,2,3,2>; template struct AddNG<7,3,2,3,2>; template struct SubNG<7,3,2,3,2>;
template struct AddNG<4,4,2,3,2>; template struct SubNG<4,4,2,3,2>; template struct AddNG<1,4,2,3,2>; template struct SubNG<1,4,2,3,2>; template struct AddNG<0,4,2,3,2>; template struct SubNG<0,4,2,3,2>;
template struct AddNG<14,4,2,3,2>; template struct SubNG<14,4,2,3,2>; template struct AddNG<11,4,2,3,2>; template struct SubNG<11,4,2,3,2>; template struct AddNG<10,4,2,3,2>; template struct SubNG<10,4,2,3,2>;
template struct AddNG<4,3,2,4,2>; template struct SubNG<4,3,2,4,2>; template struct AddNG<1,3,2,4,2>; template struct SubNG<1,3,2,4,2>; template struct AddNG<0,3,2,4,2>; template struct SubNG<0,3,2,4,2>;
template struct AddNG<14,3,2,4,2>; template struct SubNG<14,3,2,4,2>; template struct AddNG<11,3,2,4,2>; template struct SubNG<11,3,2,4,2>; template struct AddNG<10,3,2,4,2>; template struct SubNG<10,3,2,4,2>;
template struct AddNG<8,3,3,3,2>; template struct SubNG<8,3,3,3,2>; template struct AddNG<2,3,3,3,2>; template struct SubNG<2,3,3,3,2>; template struct AddNG<0,3,3,3,2>; template struct SubNG<0,3,3,3,2>;
template struct AddNG<13,3,3,3,2>; template struct SubNG<13,3,3,3,2>; template struct AddNG<7,3,3,3,2>; template struct SubNG<7,3,3,3,2>; template struct AddNG<5,3,3,3,2>; template struct SubNG<5,3,3,3,2>;
template struct AddNG<8,3,2,3,3>; template struct SubNG<8,3,2,3,3>; template struct AddNG<2,3,2,3,3>; template struct SubNG<2,3,2,3,3>; template struct AddNG<0,3,2,3,3>; template struct SubNG<0,3,2,3,3>;
template struct AddNG<13,3,2,3,3>; template struct SubNG<13,3,2,3,3>; template struct AddNG<7,3,2,3,3>; template struct SubNG<7,3,2,3,3>; template struct AddNG<5,3,2,3,3>; template struct SubNG<5,3,2,3,3>;
template struct CopyD<0,2,3,2,3>; template struct CopyC<0,2,3,2,3>; template struct CopyG<0,2,3,2,3>; template struct CopyGG<0,2,3,2,3>; template struct ScaleD<0,2,3,2,3>; template struct ScaleG<0,2,3,2,3>;
template struct ScaleGG<0,2,3,2,3>; template struct EqD<0,2,3,2,3>; template struct EqC<0,2,3,2,3>; template struct EqG<0,2,3,2,3>; template struct EqGG<0,2,3,2,3>; template struct CopyD<15,2,3,2,3>;
template struct CopyC<15,2,3,2,3>; template struct CopyG<15,2,3,2,3>; template struct CopyGG<15,2,3,2,3>; template struct ScaleD<15,2,3,2,3>; template struct ScaleG<15,2,3,2,3>; template struct ScaleGG<15,2,3,2,3>;
template struct EqD<15,2,3,2,3>; template struct EqC<15,2,3,2,3>; template struct EqG<15,2,3,2,3>; template struct EqGG<15,2,3,2,3>; template struct CopyD<14,2,3,2,3>; template struct CopyC<14,2,3,2,3>;
template struct CopyG<14,2,3,2,3>; template struct CopyGG<14,2,3,2,3>; template struct ScaleD<14,2,3,2,3>; template struct ScaleG<14,2,3,2,3>; template struct ScaleGG<14,2,3,2,3>; template struct EqD<14,2,3,2,3>;
template struct EqC<14,2,3,2,3>; template struct EqG<14,2,3,2,3>; template struct EqGG<14,2,3,2,3>; template struct CopyD<13,2,3,2,3>; template struct CopyC<13,2,3,2,3>; template struct CopyG<13,2,3,2,3>;
template struct CopyGG<13,2,3,2,3>; template struct ScaleD<13,2,3,2,3>; template struct ScaleG<13,2,3,2,3>; template struct ScaleGG<13,2,3,2,3>; template struct EqD<13,2,3,2,3>; template struct EqC<13,2,3,2,3>;
template struct EqG<13,2,3,2,3>; template struct EqGG<13,2,3,2,3>; template struct CopyD<11,2,3,2,3>; template struct CopyC<11,2,3,2,3>; template struct CopyG<11,2,3,2,3>; template struct CopyGG<11,2,3,2,3>;
template struct ScaleD<11,2,3,2,3>; template struct ScaleG<11,2,3,2,3>; template struct ScaleGG<11,2,3,2,3>; template struct EqD<11,2,3,2,3>; template struct EqC<11,2,3,2,3>; template struct EqG<11,2,3,2,3>;
template struct EqGG<11,2,3,2,3>; template struct CopyD<7,2,3,2,3>; template struct CopyC<7,2,3,2,3>; template struct CopyG<7,2,3,2,3>; template struct CopyGG<7,2,3,2,3>; template struct ScaleD<7,2,3,2,3>;
template struct ScaleG<7,2,3,2,3>; template struct ScaleGG<7,2,3,2,3>; template struct EqD<7,2,3,2,3>; template struct EqC<7,2,3,2,3>; template struct EqG<7,2,3,2,3>; template struct EqGG<7,2,3,2,3>;
template struct CopyD<1,2,3,2,3>; template struct CopyC<1,2,3,2,3>; template struct CopyG<1,2,3,2,3>; template struct CopyGG<1,2,3,2,3>; template struct ScaleD<1,2,3,2,3>; template struct ScaleG<1,2,3,2,3>;
template struct ScaleGG<1,2,3,2,3>; template struct EqD<1,2,3,2,3>; template struct EqC<1,2,3,2,3>; template struct EqG<1,2,3,2,3>; template struct EqGG<1,2,3,2,3>; template struct CopyD<2,2,3,2,3>;
template struct CopyC<2,2,3,2,3>; template struct CopyG<2,2,3,2,3>; template struct CopyGG<2,2,3,2,3>; template struct ScaleD<2,2,3,2,3>; template struct ScaleG<2,2,3,2,3>; template struct ScaleGG<2,2,3,2,3>;
template struct EqD<2,2,3,2,3>; template struct EqC<2,2,3,2,3>; template struct EqG<2,2,3,2,3>; template struct EqGG<2,2,3,2,3>; template struct CopyD<4,2,3,2,3>; template struct CopyC<4,2,3,2,3>;
template struct CopyG<4,2,3,2,3>; template struct CopyGG<4,2,3,2,3>; template struct ScaleD<4,2,3,2,3>; template struct ScaleG<4,2,3,2,3>; template struct ScaleGG<4,2,3,2,3>; template struct EqD<4,2,3,2,3>;
template struct EqC<4,2,3,2,3>; template struct EqG<4,2,3,2,3>; template struct EqGG<4,2,3,2,3>; template struct CopyD<8,2,3,2,3>; template struct CopyC<8,2,3,2,3>; template struct CopyG<8,2,3,2,3>;
template struct CopyGG<8,2,3,2,3>; template struct ScaleD<8,2,3,2,3>; template struct ScaleG<8,2,3,2,3>; template struct ScaleGG<8,2,3,2,3>; template struct EqD<8,2,3,2,3>; template struct EqC<8,2,3,2,3>;
template struct EqG<8,2,3,2,3>; template struct EqGG<8,2,3,2,3>; template struct CopyD<4,3,3,2,3>; template struct CopyC<4,3,3,2,3>; template struct CopyG<4,3,3,2,3>; template struct CopyGG<4,3,3,2,3>;
template struct ScaleD<4,3,3,2,3>; template struct ScaleG<4,3,3,2,3>; template struct ScaleGG<4,3,3,2,3>; template struct EqD<4,3,3,2,3>; template struct EqC<4,3,3,2,3>; template struct EqG<4,3,3,2,3>;
template struct EqGG<4,3,3,2,3>; template struct CopyD<1,3,3,2,3>; template struct CopyC<1,3,3,2,3>; template struct CopyG<1,3,3,2,3>; template struct CopyGG<1,3,3,2,3>; template struct ScaleD<1,3,3,2,3>;
template struct ScaleG<1,3,3,2,3>; template struct ScaleGG<1,3,3,2,3>; template struct EqD<1,3,3,2,3>; template struct EqC<1,3,3,2,3>; template struct EqG<1,3,3,2,3>; template struct EqGG<1,3,3,2,3>;
template struct CopyD<0,3,3,2,3>; template struct CopyC<0,3,3,2,3>; template struct CopyG<0,3,3,2,3>; template struct CopyGG<0,3,3,2,3>; template struct ScaleD<0,3,3,2,3>; template struct ScaleG<0,3,3,2,3>;
template struct ScaleGG<0,3,3,2,3>; template struct EqD<0,3,3,2,3>; template struct EqC<0,3,3,2,3>; template struct EqG<0,3,3,2,3>; template struct EqGG<0,3,3,2,3>; template struct CopyD<14,3,3,2,3>;
template struct CopyC<14,3,3,2,3>; template struct CopyG<14,3,3,2,3>; template struct CopyGG<14,3,3,2,3>; template struct ScaleD<14,3,3,2,3>; template struct ScaleG<14,3,3,2,3>; template struct ScaleGG<14,3,3,2,3>;
template struct EqD<14,3,3,2,3>; template struct EqC<14,3,3,2,3>; template struct EqG<14,3,3,2,3>; template struct EqGG<14,3,3,2,3>; template struct CopyD<11,3,3,2,3>; template struct CopyC<11,3,3,2,3>;
template struct CopyG<11,3,3,2,3>; template struct CopyGG<11,3,3,2,3>; template struct ScaleD<11,3,3,2,3>; template struct ScaleG<11,3,3,2,3>; template struct ScaleGG<11,3,3,2,3>; template struct EqD<11,3,3,2,3>;
template struct EqC<11,3,3,2,3>; template struct EqG<11,3,3,2,3>; template struct EqGG<11,3,3,2,3>; template struct CopyD<10,3,3,2,3>; template struct CopyC<10,3,3,2,3>; template struct CopyG<10,3,3,2,3>;
template struct CopyGG<10,3,3,2,3>; template struct ScaleD<10,3,3,2,3>; template struct ScaleG<10,3,3,2,3>; template struct ScaleGG<10,3,3,2,3>; template struct EqD<10,3,3,2,3>; template struct EqC<10,3,3,2,3>;
template struct EqG<10,3,3,2,3>; template struct EqGG<10,3,3,2,3>; template struct CopyD<4,1,3,2,3>; template struct CopyC<4,1,3,2,3>; template struct CopyG<4,1,3,2,3>; template struct CopyGG<4,1,3,2,3>;
template struct ScaleD<4,1,3,2,3>; template struct ScaleG<4,1,3,2,3>; template struct ScaleGG<4,1,3,2,3>; template struct EqD<4,1,3,2,3>; template struct EqC<4,1,3,2,3>; template struct EqG<4,1,3,2,3>;
template struct EqGG<4,1,3,2,3>; template struct CopyD<1,1,3,2,3>; template struct CopyC<1,1,3,2,3>; template struct CopyG<1,1,3,2,3>; template struct CopyGG<1,1,3,2,3>; template struct ScaleD<1,1,3,2,3>;
template struct ScaleG<1,1,3,2,3>; template struct ScaleGG<1,1,3,2,3>; template struct EqD<1,1,3,2,3>; template struct EqC<1,1,3,2,3>; template struct EqG<1,1,3,2,3>; template struct EqGG<1,1,3,2,3>;
template struct CopyD<0,1,3,2,3>; template struct CopyC<0,1,3,2,3>; template struct CopyG<0,1,3,2,3>; template struct CopyGG<0,1,3,2,3>; template struct ScaleD<0,1,3,2,3>; template struct ScaleG<0,1,3,2,3>;
template struct ScaleGG<0,1,3,2,3>; template struct EqD<0,1,3,2,3>; template struct EqC<0,1,3,2,3>; template struct EqG<0,1,3,2,3>; template struct EqGG<0,1,3,2,3>; template struct CopyD<14,1,3,2,3>;
template struct CopyC<14,1,3,2,3>; template struct CopyG<14,1,3,2,3>; template struct CopyGG<14,1,3,2,3>; template struct ScaleD<14,1,3,2,3>; template struct ScaleG<14,1,3,2,3>; template struct ScaleGG<14,1,3,2,3>;
template struct EqD<14,1,3,2,3>; template struct EqC<14,1,3,2,3>; template struct EqG<14,1,3,2,3>; template struct EqGG<14,1,3,2,3>; template struct CopyD<11,1,3,2,3>; template struct CopyC<11,1,3,2,3>;
template struct CopyG<11,1,3,2,3>; template struct CopyGG<11,1,3,2,3>; template struct ScaleD<11,1,3,2,3>; template struct ScaleG<11,1,3,2,3>; template struct ScaleGG<11,1,3,2,3>; template struct EqD<11,1,3,2,3>;
template struct EqC<11,1,3,2,3>; template struct EqG<11,1,3,2,3>; template struct EqGG<11,1,3,2,3>; template struct CopyD<10,1,3,2,3>; template struct CopyC<10,1,3,2,3>; template struct CopyG<10,1,3,2,3>;
template struct CopyGG<10,1,3,2,3>; template struct ScaleD<10,1,3,2,3>; template struct ScaleG<10,1,3,2,3>; template struct ScaleGG<10,1,3,2,3>; template struct EqD<10,1,3,2,3>; template struct EqC<10,1,3,2,3>;
template struct EqG<10,1,3,2,3>; template struct EqGG<10,1,3,2,3>; template struct CopyD<4,2,3,3,3>; template struct CopyC<4,2,3,3,3>; template struct CopyG<4,2,3,3,3>; template struct CopyGG<4,2,3,3,3>;
template struct ScaleD<4,2,3,3,3>; template struct ScaleG<4,2,3,3,3>; template struct ScaleGG<4,2,3,3,3>; template struct EqD<4,2,3,3,3>; template struct EqC<4,2,3,3,3>; template struct EqG<4,2,3,3,3>;
template struct EqGG<4,2,3,3,3>; template struct CopyD<1,2,3,3,3>; template struct CopyC<1,2,3,3,3>; template struct CopyG<1,2,3,3,3>; template struct CopyGG<1,2,3,3,3>; template struct ScaleD<1,2,3,3,3>;
template struct ScaleG<1,2,3,3,3>; template struct ScaleGG<1,2,3,3,3>; template struct EqD<1,2,3,3,3>; template struct EqC<1,2,3,3,3>; template struct EqG<1,2,3,3,3>; template struct EqGG<1,2,3,3,3>;
template struct CopyD<0,2,3,3,3>; template struct CopyC<0,2,3,3,3>; template struct CopyG<0,2,3,3,3>; template struct CopyGG<0,2,3,3,3>; template struct ScaleD<0,2,3,3,3>; template struct ScaleG<0,2,3,3,3>;
template struct ScaleGG<0,2,3,3,3>; template struct EqD<0,2,3,3,3>; template struct EqC<0,2,3,3,3>; template struct EqG<0,2,3,3,3>; template struct EqGG<0,2,3,3,3>; template struct CopyD<14,2,3,3,3>;
template struct CopyC<14,2,3,3,3>; template struct CopyG<14,2,3,3,3>; template struct CopyGG<14,2,3,3,3>; template struct ScaleD<14,2,3,3,3>; template struct ScaleG<14,2,3,3,3>; template struct ScaleGG<14,2,3,3,3>;
template struct EqD<14,2,3,3,3>; template struct EqC<14,2,3,3,3>; template struct EqG<14,2,3,3,3>; template struct EqGG<14,2,3,3,3>; template struct CopyD<11,2,3,3,3>; template struct CopyC<11,2,3,3,3>;
template struct CopyG<11,2,3,3,3>; template struct CopyGG<11,2,3,3,3>; template struct ScaleD<11,2,3,3,3>; template struct ScaleG<11,2,3,3,3>; template struct ScaleGG<11,2,3,3,3>; template struct EqD<11,2,3,3,3>;
template struct EqC<11,2,3,3,3>; template struct EqG<11,2,3,3,3>; template struct EqGG<11,2,3,3,3>; template struct CopyD<10,2,3,3,3>; template struct CopyC<10,2,3,3,3>; template struct CopyG<10,2,3,3,3>;
template struct CopyGG<10,2,3,3,3>; template struct ScaleD<10,2,3,3,3>; template struct ScaleG<10,2,3,3,3>; template struct ScaleGG<10,2,3,3,3>; template struct EqD<10,2,3,3,3>; template struct EqC<10,2,3,3,3>;
template struct EqG<10,2,3,3,3>; template struct EqGG<10,2,3,3,3>; template struct CopyD<4,2,3,1,3>; template struct CopyC<4,2,3,1,3>; template struct CopyG<4,2,3,1,3>; template struct CopyGG<4,2,3,1,3>;
template struct ScaleD<4,2,3,1,3>; template struct ScaleG<4,2,3,1,3>; template struct ScaleGG<4,2,3,1,3>; template struct EqD<4,2,3,1,3>; template struct EqC<4,2,3,1,3>; template struct EqG<4,2,3,1,3>;
template struct EqGG<4,2,3,1,3>; template struct CopyD<1,2,3,1,3>; template struct CopyC<1,2,3,1,3>; template struct CopyG<1,2,3,1,3>; template struct CopyGG<1,2,3,1,3>; template struct ScaleD<1,2,3,1,3>;
template struct ScaleG<1,2,3,1,3>; template struct ScaleGG<1,2,3,1,3>; template struct EqD<1,2,3,1,3>; template struct EqC<1,2,3,1,3>; template struct EqG<1,2,3,1,3>; template struct EqGG<1,2,3,1,3>;
template struct CopyD<0,2,3,1,3>; template struct CopyC<0,2,3,1,3>; template struct CopyG<0,2,3,1,3>; template struct CopyGG<0,2,3,1,3>; template struct ScaleD<0,2,3,1,3>; template struct ScaleG<0,2,3,1,3>;
template struct ScaleGG<0,2,3,1,3>; template struct EqD<0,2,3,1,3>; template struct EqC<0,2,3,1,3>; template struct EqG<0,2,3,1,3>; template struct EqGG<0,2,3,1,3>; template struct CopyD<14,2,3,1,3>;
template struct CopyC<14,2,3,1,3>; template struct CopyG<14,2,3,1,3>; template struct CopyGG<14,2,3,1,3>; template struct ScaleD<14,2,3,1,3>; template struct ScaleG<14,2,3,1,3>; template struct ScaleGG<14,2,3,1,3>;
template struct EqD<14,2,3,1,3>; template struct EqC<14,2,3,1,3>; template struct EqG<14,2,3,1,3>; template struct EqGG<14,2,3,1,3>; template struct CopyD<11,2,3,1,3>; template struct CopyC<11,2,3,1,3>;
template struct CopyG<11,2,3,1,3>; template struct CopyGG<11,2,3,1,3>; template struct ScaleD<11,2,3,1,3>; template struct ScaleG<11,2,3,1,3>; template struct ScaleGG<11,2,3,1,3>; template struct EqD<11,2,3,1,3>;
template struct EqC<11,2,3,1,3>; template struct EqG<11,2,3,1,3>; template struct EqGG<11,2,3,1,3>; template struct CopyD<10,2,3,1,3>; template struct CopyC<10,2,3,1,3>; template struct CopyG<10,2,3,1,3>;
template struct CopyGG<10,2,3,1,3>; template struct ScaleD<10,2,3,1,3>; template struct ScaleG<10,2,3,1,3>; template struct ScaleGG<10,2,3,1,3>; template struct EqD<10,2,3,1,3>; template struct EqC<10,2,3,1,3>;
template struct EqG<10,2,3,1,3>; template struct EqGG<10,2,3,1,3>; template struct CopyD<8,2,4,2,3>; template struct CopyC<8,2,4,2,3>; template struct CopyG<8,2,4,2,3>; template struct CopyGG<8,2,4,2,3>;
template struct ScaleD<8,2,4,2,3>; template struct ScaleG<8,2,4,2,3>; template struct ScaleGG<8,2,4,2,3>; template struct EqD<8,2,4,2,3>; template struct EqC<8,2,4,2,3>; template struct EqG<8,2,4,2,3>;
template struct EqGG<8,2,4,2,3>; template struct CopyD<2,2,4,2,3>; template struct CopyC<2,2,4,2,3>; template struct CopyG<2,2,4,2,3>; template struct CopyGG<2,2,4,2,3>; template struct ScaleD<2,2,4,2,3>;
template struct ScaleG<2,2,4,2,3>; template struct ScaleGG<2,2,4,2,3>; template struct EqD<2,2,4,2,3>; template struct EqC<2,2,4,2,3>; template struct EqG<2,2,4,2,3>; template struct EqGG<2,2,4,2,3>;
template struct CopyD<0,2,4,2,3>; template struct CopyC<0,2,4,2,3>; template struct CopyG<0,2,4,2,3>; template struct CopyGG<0,2,4,2,3>; template struct ScaleD<0,2,4,2,3>; template struct ScaleG<0,2,4,2,3>;
template struct ScaleGG<0,2,4,2,3>; template struct EqD<0,2,4,2,3>; template struct EqC<0,2,4,2,3>; template struct EqG<0,2,4,2,3>; template struct EqGG<0,2,4,2,3>; template struct CopyD<13,2,4,2,3>;
template struct CopyC<13,2,4,2,3>; template struct CopyG<13,2,4,2,3>; template struct CopyGG<13,2,4,2,3>; template struct ScaleD<13,2,4,2,3>; template struct ScaleG<13,2,4,2,3>; template struct ScaleGG<13,2,4,2,3>;
template struct EqD<13,2,4,2,3>; template struct EqC<13,2,4,2,3>; template struct EqG<13,2,4,2,3>; template struct EqGG<13,2,4,2,3>; template struct CopyD<7,2,4,2,3>; template struct CopyC<7,2,4,2,3>;
template struct CopyG<7,2,4,2,3>; template struct CopyGG<7,2,4,2,3>; template struct ScaleD<7,2,4,2,3>; template struct ScaleG<7,2,4,2,3>; template struct ScaleGG<7,2,4,2,3>; template struct EqD<7,2,4,2,3>;
template struct EqC<7,2,4,2,3>; template struct EqG<7,2,4,2,3>; template struct EqGG<7,2,4,2,3>; template struct CopyD<5,2,4,2,3>; template struct CopyC<5,2,4,2,3>; template struct CopyG<5,2,4,2,3>;
template struct CopyGG<5,2,4,2,3>; template struct ScaleD<5,2,4,2,3>; template struct ScaleG<5,2,4,2,3>; template struct ScaleGG<5,2,4,2,3>; template struct EqD<5,2,4,2,3>; template struct EqC<5,2,4,2,3>;
template struct EqG<5,2,4,2,3>; template struct EqGG<5,2,4,2,3>; template struct CopyD<8,2,2,2,3>; template struct CopyC<8,2,2,2,3>; template struct CopyG<8,2,2,2,3>; template struct CopyGG<8,2,2,2,3>;
template struct ScaleD<8,2,2,2,3>; template struct ScaleG<8,2,2,2,3>; template struct ScaleGG<8,2,2,2,3>; template struct EqD<8,2,2,2,3>; template struct EqC<8,2,2,2,3>; template struct EqG<8,2,2,2,3>;
template struct EqGG<8,2,2,2,3>; template struct CopyD<2,2,2,2,3>; template struct CopyC<2,2,2,2,3>; template struct CopyG<2,2,2,2,3>; template struct CopyGG<2,2,2,2,3>; template struct ScaleD<2,2,2,2,3>;
template struct ScaleG<2,2,2,2,3>; template struct ScaleGG<2,2,2,2,3>; template struct EqD<2,2,2,2,3>; template struct EqC<2,2,2,2,3>; template struct EqG<2,2,2,2,3>; template struct EqGG<2,2,2,2,3>;
template struct CopyD<0,2,2,2,3>; template struct CopyC<0,2,2,2,3>; template struct CopyG<0,2,2,2,3>; template struct CopyGG<0,2,2,2,3>; template struct ScaleD<0,2,2,2,3>; template struct ScaleG<0,2,2,2,3>;
template struct ScaleGG<0,2,2,2,3>; template struct EqD<0,2,2,2,3>; template struct EqC<0,2,2,2,3>; template struct EqG<0,2,2,2,3>; template struct EqGG<0,2,2,2,3>; template struct CopyD<13,2,2,2,3>;
template struct CopyC<13,2,2,2,3>; template struct CopyG<13,2,2,2,3>; template struct CopyGG<13,2,2,2,3>; template struct ScaleD<13,2,2,2,3>; template struct ScaleG<13,2,2,2,3>; template struct ScaleGG<13,2,2,2,3>;
template struct EqD<13,2,2,2,3>; template struct EqC<13,2,2,2,3>; template struct EqG<13,2,2,2,3>; template struct EqGG<13,2,2,2,3>; template struct CopyD<7,2,2,2,3>; template struct CopyC<7,2,2,2,3>;
template struct CopyG<7,2,2,2,3>; template struct CopyGG<7,2,2,2,3>; template struct ScaleD<7,2,2,2,3>; template struct ScaleG<7,2,2,2,3>; template struct ScaleGG<7,2,2,2,3>; template struct EqD<7,2,2,2,3>;
template struct EqC<7,2,2,2,3>; template struct EqG<7,2,2,2,3>; template struct EqGG<7,2,2,2,3>; template struct CopyD<5,2,2,2,3>; template struct CopyC<5,2,2,2,3>; template struct CopyG<5,2,2,2,3>;
template struct CopyGG<5,2,2,2,3>; template struct ScaleD<5,2,2,2,3>; template struct ScaleG<5,2,2,2,3>; template struct ScaleGG<5,2,2,2,3>; template struct EqD<5,2,2,2,3>; template struct EqC<5,2,2,2,3>;
template struct EqG<5,2,2,2,3>; template struct EqGG<5,2,2,2,3>; template struct CopyD<8,2,3,2,4>; template struct CopyC<8,2,3,2,4>; template struct CopyG<8,2,3,2,4>; template struct CopyGG<8,2,3,2,4>;
template struct ScaleD<8,2,3,2,4>; template struct ScaleG<8,2,3,2,4>; template struct ScaleGG<8,2,3,2,4>; template struct EqD<8,2,3,2,4>; template struct EqC<8,2,3,2,4>; template struct EqG<8,2,3,2,4>;
template struct EqGG<8,2,3,2,4>; template struct CopyD<2,2,3,2,4>; template struct CopyC<2,2,3,2,4>; template struct CopyG<2,2,3,2,4>; template struct CopyGG<2,2,3,2,4>; template struct ScaleD<2,2,3,2,4>;
template struct ScaleG<2,2,3,2,4>; template struct ScaleGG<2,2,3,2,4>; template struct EqD<2,2,3,2,4>; template struct EqC<2,2,3,2,4>; template struct EqG<2,2,3,2,4>; template struct EqGG<2,2,3,2,4>;
template struct CopyD<0,2,3,2,4>; template struct CopyC<0,2,3,2,4>; template struct CopyG<0,2,3,2,4>; template struct CopyGG<0,2,3,2,4>; template struct ScaleD<0,2,3,2,4>; template struct ScaleG<0,2,3,2,4>;
template struct ScaleGG<0,2,3,2,4>; template struct EqD<0,2,3,2,4>; template struct EqC<0,2,3,2,4>; template struct EqG<0,2,3,2,4>; template struct EqGG<0,2,3,2,4>; template struct CopyD<13,2,3,2,4>;
template struct CopyC<13,2,3,2,4>; template struct CopyG<13,2,3,2,4>; template struct CopyGG<13,2,3,2,4>; template struct ScaleD<13,2,3,2,4>; template struct ScaleG<13,2,3,2,4>; template struct ScaleGG<13,2,3,2,4>;
template struct EqD<13,2,3,2,4>; template struct EqC<13,2,3,2,4>; template struct EqG<13,2,3,2,4>; template struct EqGG<13,2,3,2,4>; template struct CopyD<7,2,3,2,4>; template struct CopyC<7,2,3,2,4>;
template struct CopyG<7,2,3,2,4>; template struct CopyGG<7,2,3,2,4>; template struct ScaleD<7,2,3,2,4>; template struct ScaleG<7,2,3,2,4>; template struct ScaleGG<7,2,3,2,4>; template struct EqD<7,2,3,2,4>;
template struct EqC<7,2,3,2,4>; template struct EqG<7,2,3,2,4>; template struct EqGG<7,2,3,2,4>; template struct CopyD<5,2,3,2,4>; template struct CopyC<5,2,3,2,4>; template struct CopyG<5,2,3,2,4>;
template struct CopyGG<5,2,3,2,4>; template struct ScaleD<5,2,3,2,4>; template struct ScaleG<5,2,3,2,4>; template struct ScaleGG<5,2,3,2,4>; template struct EqD<5,2,3,2,4>; template struct EqC<5,2,3,2,4>;
template struct EqG<5,2,3,2,4>; template struct EqGG<5,2,3,2,4>; template struct CopyD<8,2,3,2,2>; template struct CopyC<8,2,3,2,2>; template struct CopyG<8,2,3,2,2>; template struct CopyGG<8,2,3,2,2>;
template struct ScaleD<8,2,3,2,2>; template struct ScaleG<8,2,3,2,2>; template struct ScaleGG<8,2,3,2,2>; template struct EqD<8,2,3,2,2>; template struct EqC<8,2,3,2,2>; template struct EqG<8,2,3,2,2>;
template struct EqGG<8,2,3,2,2>; template struct CopyD<2,2,3,2,2>; template struct CopyC<2,2,3,2,2>; template struct CopyG<2,2,3,2,2>; template struct CopyGG<2,2,3,2,2>; template struct ScaleD<2,2,3,2,2>;
template struct ScaleG<2,2,3,2,2>; template struct ScaleGG<2,2,3,2,2>; template struct EqD<2,2,3,2,2>; template struct EqC<2,2,3,2,2>; template struct EqG<2,2,3,2,2>; template struct EqGG<2,2,3,2,2>;
template struct CopyD<0,2,3,2,2>; template struct CopyC<0,2,3,2,2>; template struct CopyG<0,2,3,2,2>; template struct CopyGG<0,2,3,2,2>; template struct ScaleD<0,2,3,2,2>; template struct ScaleG<0,2,3,2,2>;
template struct ScaleGG<0,2,3,2,2>; template struct EqD<0,2,3,2,2>; template struct EqC<0,2,3,2,2>; template struct EqG<0,2,3,2,2>; template struct EqGG<0,2,3,2,2>; template struct CopyD<13,2,3,2,2>;
template struct CopyC<13,2,3,2,2>; template struct CopyG<13,2,3,2,2>; template struct CopyGG<13,2,3,2,2>; template struct ScaleD<13,2,3,2,2>; template struct ScaleG<13,2,3,2,2>; template struct ScaleGG<13,2,3,2,2>;
template struct EqD<13,2,3,2,2>; template struct EqC<13,2,3,2,2>; template struct EqG<13,2,3,2,2>; template struct EqGG<13,2,3,2,2>; template struct CopyD<7,2,3,2,2>; template struct CopyC<7,2,3,2,2>;
template struct CopyG<7,2,3,2,2>; template struct CopyGG<7,2,3,2,2>; template struct ScaleD<7,2,3,2,2>; template struct ScaleG<7,2,3,2,2>; template struct ScaleGG<7,2,3,2,2>; template struct EqD<7,2,3,2,2>;
template struct EqC<7,2,3,2,2>; template struct EqG<7,2,3,2,2>; template struct EqGG<7,2,3,2,2>; template struct CopyD<5,2,3,2,2>; template struct CopyC<5,2,3,2,2>; template struct CopyG<5,2,3,2,2>;
template struct CopyGG<5,2,3,2,2>; template struct ScaleD<5,2,3,2,2>; template struct ScaleG<5,2,3,2,2>; template struct ScaleGG<5,2,3,2,2>; template struct EqD<5,2,3,2,2>; template struct EqC<5,2,3,2,2>;
template struct EqG<5,2,3,2,2>; template struct EqGG<5,2,3,2,2>; template struct TrD<0,2,3,3,2>; template struct TrC<0,2,3,3,2>; template struct TrG<0,2,3,3,2>; template struct TrGG<0,2,3,3,2>;
template struct TrD<15,2,3,3,2>; template struct TrC<15,2,3,3,2>; template struct TrG<15,2,3,3,2>; template struct TrGG<15,2,3,3,2>; template struct TrD<14,2,3,3,2>; template struct TrC<14,2,3,3,2>;
template struct TrG<14,2,3,3,2>; template struct TrGG<14,2,3,3,2>; template struct TrD<13,2,3,3,2>; template struct TrC<13,2,3,3,2>; template struct TrG<13,2,3,3,2>; template struct TrGG<13,2,3,3,2>;
template struct TrD<11,2,3,3,2>; template struct TrC<11,2,3,3,2>; template struct TrG<11,2,3,3,2>; template struct TrGG<11,2,3,3,2>; template struct TrD<7,2,3,3,2>; template struct TrC<7,2,3,3,2>;
template struct TrG<7,2,3,3,2>; template struct TrGG<7,2,3,3,2>; template struct TrD<1,2,3,3,2>; template struct TrC<1,2,3,3,2>; template struct TrG<1,2,3,3,2>; template struct TrGG<1,2,3,3,2>;
template struct TrD<2,2,3,3,2>; template struct TrC<2,2,3,3,2>; template struct TrG<2,2,3,3,2>; template struct TrGG<2,2,3,3,2>; template struct TrD<4,2,3,3,2>; template struct TrC<4,2,3,3,2>;
template struct TrG<4,2,3,3,2>; template struct TrGG<4,2,3,3,2>; template struct TrD<8,2,3,3,2>; template struct TrC<8,2,3,3,2>; template struct TrG<8,2,3,3,2>; template struct TrGG<8,2,3,3,2>;
template struct TrD<8,3,3,3,2>; template struct TrC<8,3,3,3,2>; template struct TrG<8,3,3,3,2>; template struct TrGG<8,3,3,3,2>; template struct TrD<1,3,3,3,2>; template struct TrC<1,3,3,3,2>;
template struct TrG<1,3,3,3,2>; template struct TrGG<1,3,3,3,2>; template struct TrD<0,3,3,3,2>; template struct TrC<0,3,3,3,2>; template struct TrG<0,3,3,3,2>; template struct TrGG<0,3,3,3,2>;
template struct TrD<14,3,3,3,2>; template struct TrC<14,3,3,3,2>; template struct TrG<14,3,3,3,2>; template struct TrGG<14,3,3,3,2>; template struct TrD<7,3,3,3,2>; template struct TrC<7,3,3,3,2>;
template struct TrG<7,3,3,3,2>; template struct TrGG<7,3,3,3,2>; template struct TrD<6,3,3,3,2>; template struct TrC<6,3,3,3,2>; template struct TrG<6,3,3,3,2>; template struct TrGG<6,3,3,3,2>;
template struct TrD<8,1,3,3,2>; template struct TrC<8,1,3,3,2>; template struct TrG<8,1,3,3,2>; template struct TrGG<8,1,3,3,2>; template struct TrD<1,1,3,3,2>; template struct TrC<1,1,3,3,2>;
template struct TrG<1,1,3,3,2>; template struct TrGG<1,1,3,3,2>; template struct TrD<0,1,3,3,2>; template struct TrC<0,1,3,3,2>; template struct TrG<0,1,3,3,2>; template struct TrGG<0,1,3,3,2>;
template struct TrD<14,1,3,3,2>; template struct TrC<14,1,3,3,2>; template struct TrG<14,1,3,3,2>; template struct TrGG<14,1,3,3,2>; template struct TrD<7,1,3,3,2>; template struct TrC<7,1,3,3,2>;
template struct TrG<7,1,3,3,2>; template struct TrGG<7,1,3,3,2>; template struct TrD<6,1,3,3,2>; template struct TrC<6,1,3,3,2>; template struct TrG<6,1,3,3,2>; template struct TrGG<6,1,3,3,2>;
template struct TrD<8,2,3,3,3>; template struct TrC<8,2,3,3,3>; template struct TrG<8,2,3,3,3>; template struct TrGG<8,2,3,3,3>; template struct TrD<1,2,3,3,3>; template struct TrC<1,2,3,3,3>;
template struct TrG<1,2,3,3,3>; template struct TrGG<1,2,3,3,3>; template struct TrD<0,2,3,3,3>; template struct TrC<0,2,3,3,3>; template struct TrG<0,2,3,3,3>; template struct TrGG<0,2,3,3,3>;
template struct TrD<14,2,3,3,3>; template struct TrC<14,2,3,3,3>; template struct TrG<14,2,3,3,3>; template struct TrGG<14,2,3,3,3>; template struct TrD<7,2,3,3,3>; template struct TrC<7,2,3,3,3>;
template struct TrG<7,2,3,3,3>; template struct TrGG<7,2,3,3,3>; template struct TrD<6,2,3,3,3>; template struct TrC<6,2,3,3,3>; template struct TrG<6,2,3,3,3>; template struct TrGG<6,2,3,3,3>;
template struct TrD<8,2,3,3,1>; template struct TrC<8,2,3,3,1>; template struct TrG<8,2,3,3,1>; template struct TrGG<8,2,3,3,1>; template struct TrD<1,2,3,3,1>; template struct TrC<1,2,3,3,1>;
template struct TrG<1,2,3,3,1>; template struct TrGG<1,2,3,3,1>; template struct TrD<0,2,3,3,1>; template struct TrC<0,2,3,3,1>; template struct TrG<0,2,3,3,1>; template struct TrGG<0,2,3,3,1>;
template struct TrD<14,2,3,3,1>; template struct TrC<14,2,3,3,1>; template struct TrG<14,2,3,3,1>; template struct TrGG<14,2,3,3,1>; template struct TrD<7,2,3,3,1>; template struct TrC<7,2,3,3,1>;
template struct TrG<7,2,3,3,1>; template struct TrGG<7,2,3,3,1>; template struct TrD<6,2,3,3,1>; template struct TrC<6,2,3,3,1>; template struct TrG<6,2,3,3,1>; template struct TrGG<6,2,3,3,1>;
template struct TrD<4,2,4,3,2>; template struct TrC<4,2,4,3,2>; template struct TrG<4,2,4,3,2>; template struct TrGG<4,2,4,3,2>; template struct TrD<2,2,4,3,2>; template struct TrC<2,2,4,3,2>;
template struct TrG<2,2,4,3,2>; template struct TrGG<2,2,4,3,2>; template struct TrD<0,2,4,3,2>; template struct TrC<0,2,4,3,2>; template struct TrG<0,2,4,3,2>; template struct TrGG<0,2,4,3,2>;
template struct TrD<13,2,4,3,2>; template struct TrC<13,2,4,3,2>; template struct TrG<13,2,4,3,2>; template struct TrGG<13,2,4,3,2>; template struct TrD<11,2,4,3,2>; template struct TrC<11,2,4,3,2>;
template struct TrG<11,2,4,3,2>; template struct TrGG<11,2,4,3,2>; template struct TrD<9,2,4,3,2>; template struct TrC<9,2,4,3,2>; template struct TrG<9,2,4,3,2>; template struct TrGG<9,2,4,3,2>;
template struct TrD<4,2,2,3,2>; template struct TrC<4,2,2,3,2>; template struct TrG<4,2,2,3,2>; template struct TrGG<4,2,2,3,2>; template struct TrD<2,2,2,3,2>; template struct TrC<2,2,2,3,2>;
template struct TrG<2,2,2,3,2>; template struct TrGG<2,2,2,3,2>; template struct TrD<0,2,2,3,2>; template struct TrC<0,2,2,3,2>; template struct TrG<0,2,2,3,2>; template struct TrGG<0,2,2,3,2>;
template struct TrD<13,2,2,3,2>; template struct TrC<13,2,2,3,2>; template struct TrG<13,2,2,3,2>; template struct TrGG<13,2,2,3,2>; template struct TrD<11,2,2,3,2>; template struct TrC<11,2,2,3,2>;
template struct TrG<11,2,2,3,2>; template struct TrGG<11,2,2,3,2>; template struct TrD<9,2,2,3,2>; template struct TrC<9,2,2,3,2>; template struct TrG<9,2,2,3,2>; template struct TrGG<9,2,2,3,2>;
template struct TrD<4,2,3,4,2>; template struct TrC<4,2,3,4,2>; template struct TrG<4,2,3,4,2>; template struct TrGG<4,2,3,4,2>; template struct TrD<2,2,3,4,2>; template struct TrC<2,2,3,4,2>;
template struct TrG<2,2,3,4,2>; template struct TrGG<2,2,3,4,2>; template struct TrD<0,2,3,4,2>; template struct TrC<0,2,3,4,2>; template struct TrG<0,2,3,4,2>; template struct TrGG<0,2,3,4,2>;
template struct TrD<13,2,3,4,2>; template struct TrC<13,2,3,4,2>; template struct TrG<13,2,3,4,2>; template struct TrGG<13,2,3,4,2>; template struct TrD<11,2,3,4,2>; template struct TrC<11,2,3,4,2>;
template struct TrG<11,2,3,4,2>; template struct TrGG<11,2,3,4,2>; template struct TrD<9,2,3,4,2>; template struct TrC<9,2,3,4,2>; template struct TrG<9,2,3,4,2>; template struct TrGG<9,2,3,4,2>;
template struct TrD<4,2,3,2,2>; template struct TrC<4,2,3,2,2>; template struct TrG<4,2,3,2,2>; template struct TrGG<4,2,3,2,2>; template struct TrD<2,2,3,2,2>; template struct TrC<2,2,3,2,2>;
template struct TrG<2,2,3,2,2>; template struct TrGG<2,2,3,2,2>; template struct TrD<0,2,3,2,2>; template struct TrC<0,2,3,2,2>; template struct TrG<0,2,3,2,2>; template struct TrGG<0,2,3,2,2>;
template struct TrD<13,2,3,2,2>; template struct TrC<13,2,3,2,2>; template struct TrG<13,2,3,2,2>; template struct TrGG<13,2,3,2,2>; template struct TrD<11,2,3,2,2>; template struct TrC<11,2,3,2,2>;
template struct TrG<11,2,3,2,2>; template struct TrGG<11,2,3,2,2>; template struct TrD<9,2,3,2,2>; template struct TrC<9,2,3,2,2>; template struct TrG<9,2,3,2,2>; template struct TrGG<9,2,3,2,2>;
template struct MulEqG<0,2,3,3,3>; template struct MulEqG<3,2,3,3,3>; template struct MulEqG<12,2,3,3,3>; template struct MulEqG<2,2,3,3,3>; template struct MulEqG<4,2,3,3,3>; template struct MulEqG<15,2,3,3,3>;
template struct MulEqG<0,2,3,2,2>; template struct MulEqG<3,2,3,2,2>; template struct MulEqG<12,2,3,2,2>; template struct MulEqG<0,2,3,4,4>; template struct MulEqG<3,2,3,4,4>; template struct MulEqG<12,2,3,4,4>;
template struct MulEqG<1,2,3,4,4>; template struct MulEqG<2,2,3,2,2>; template struct InvD<0,2,2,2,2>; template struct InvD<3,2,2,2,2>; template struct InvD<12,2,2,2,2>; template struct InvD<15,2,2,2,2>;
template struct InvD<5,2,2,2,2>; template struct InvD<0,2,3,2,3>; template struct InvD<0,3,2,3,2>; template struct InvD<0,2,3,2,2>; template struct InvD<0,2,2,3,3>; template struct InvD<0,2,2,2,3>;
template struct InvD<0,2,2,3,2>; template struct InvD<3,2,2,3,3>; template struct InvD<12,2,2,3,3>; template struct InvD<3,2,2,3,2>; template struct InvD<1,2,3,2,3>; template struct InvD<2,3,2,3,2>;
template struct InvD<12,2,3,2,2>; template struct InvG<0,2,2,2,2>; template struct InvG<3,2,2,2,2>; template struct InvG<12,2,2,2,2>; template struct InvG<15,2,2,2,2>; template struct InvG<5,2,2,2,2>;
template struct InvG<0,2,3,2,3>; template struct InvG<0,3,2,3,2>; template struct InvG<0,2,3,2,2>; template struct InvG<0,2,2,3,3>; template struct InvG<0,2,2,2,3>; template struct InvG<0,2,2,3,2>;
template struct InvG<3,2,2,3,3>; template struct InvG<12,2,2,3,3>; template struct InvG<3,2,2,3,2>; template struct InvG<1,2,3,2,3>; template struct InvG<2,3,2,3,2>; template struct InvG<12,2,3,2,2>;
template struct InvN<0,2,2>; template struct InvN<1,2,2>; template struct InvN<2,2,2>; template struct InvN<3,2,2>; template struct InvN<0,2,3>; template struct InvN<0,3,2>; template struct InvN<1,2,3>;
template struct InvN<2,3,2>; template struct InvNG<0,2,2>; template struct InvNG<1,2,2>; template struct InvNG<2,2,2>; template struct InvNG<3,2,2>; template struct InvNG<0,2,3>; template struct InvNG<0,3,2>;
template struct InvNG<1,2,3>; template struct InvNG<2,3,2>; template struct MxV<0,2,3,3>; template struct MxV<1,2,3,3>; template struct MxV<2,2,3,3>; template struct MxV<0,2,3,2>; template struct MxV<0,2,3,4>;
template struct MxV<1,2,3,2>; template struct MxV<1,2,3,4>; template struct MxV<0,3,2,3>; template struct VxM<0,2,3,2>; template struct VxM<1,2,3,2>; template struct VxM<2,2,3,2>; template struct VxM<0,2,3,3>;
template struct VxM<0,2,3,4>; template struct VxM<2,3,2,2>; template struct VxM<2,3,2,4>; template struct VxM<0,3,2,2>; template struct MxVd<0,2,3,3,2>; template struct MxVd<1,2,3,3,2>; template struct MxVd<2,2,3,3,2>;
template struct MxVd<1,2,3,2,2>; template struct MxVd<0,2,3,3,3>; template struct MxVd<2,2,3,3,3>; template struct MxVd<2,2,3,3,4>; template struct MxVd<0,2,3,2,2>; template struct VxMd<0,2,3,2,3>;
template struct VxMd<1,2,3,2,3>; template struct VxMd<2,2,3,2,3>; template struct VxMd<2,2,3,3,3>; template struct VxMd<0,2,3,2,2>; template struct VxMd<1,2,3,2,2>; template struct VxMd<1,2,3,2,4>;
template struct VxMd<0,2,3,3,3>; template struct CopyVM<0,1,3,3>; template struct CopyVM<0,3,1,3>; template struct CopyVM<1,1,3,3>; template struct CopyVM<2,3,1,3>; template struct CopyVM<2,1,3,3>;
template struct CopyVM<1,3,1,3>; template struct CopyVM<3,3,1,3>; template struct CopyVM<3,1,3,3>; template struct CopyVM<0,1,2,3>; template struct CopyVM<0,2,1,3>; template struct CopyVM<0,1,4,3>;
template struct CopyVM<0,3,3,3>; template struct CopyVM<0,2,3,3>; template struct CopyVM<0,3,2,3>; template struct CopyVM<2,2,1,3>; template struct CopyVM<2,4,1,3>; template struct CopyVM<1,1,2,3>;
template struct CopyVM<1,3,2,3>; template struct CopyVM<1,1,4,3>; template struct CopyVM<2,2,3,3>; template struct CopyVM<0,1,1,1>; template struct CopyVM<0,1,1,2>; template struct CopyVM<0,2,2,4>;
template struct CopyMV<0,1,3,3>; template struct CopyMV<0,3,1,3>; template struct CopyMV<1,1,3,3>; template struct CopyMV<2,3,1,3>; template struct CopyMV<2,1,3,3>; template struct CopyMV<1,3,1,3>;
template struct CopyMV<3,3,1,3>; template struct CopyMV<3,1,3,3>; template struct CopyMV<0,1,2,3>; template struct CopyMV<0,2,1,3>; template struct CopyMV<0,1,4,3>; template struct CopyMV<0,3,3,3>;
template struct CopyMV<0,2,3,3>; template struct CopyMV<0,3,2,3>; template struct CopyMV<2,2,1,3>; template struct CopyMV<2,4,1,3>; template struct CopyMV<1,1,2,3>; template struct CopyMV<1,3,2,3>;
template struct CopyMV<1,1,4,3>; template struct CopyMV<2,2,3,3>; template struct CopyMV<0,1,1,1>; template struct CopyMV<0,1,1,2>; template struct CopyMV<0,2,2,4>; template struct PxM<1,3,0,3,2>;
template struct PxM<1,3,0,2,3>; template struct PxM<1,3,0,4,2>; template struct PxM<1,3,1,3,2>; template struct PxM<1,3,1,2,3>; template struct PxM<1,3,1,4,2>; template struct PxM<1,3,2,3,2>;
template struct PxM<1,3,2,2,3>; template struct PxM<1,3,2,4,2>; template struct PxM<1,3,3,3,2>; template struct PxM<1,3,3,2,3>; template struct PxM<1,3,3,4,2>; template struct PxM<3,3,0,3,2>;
template struct PxM<3,3,0,2,3>; template struct PxM<3,3,0,4,2>; template struct PxM<3,3,1,3,2>; template struct PxM<3,3,1,2,3>; template struct PxM<3,3,1,4,2>; template struct PxM<3,3,2,3,2>;
template struct PxM<3,3,2,2,3>; template struct PxM<3,3,2,4,2>; template struct PxM<3,3,3,3,2>; template struct PxM<3,3,3,2,3>; template struct PxM<3,3,3,4,2>; template struct PxM<4,3,0,3,2>;
template struct PxM<4,3,0,2,3>; template struct PxM<4,3,0,4,2>; template struct PxM<4,3,1,3,2>; template struct PxM<4,3,1,2,3>; template struct PxM<4,3,1,4,2>; template struct PxM<4,3,2,3,2>;
template struct PxM<4,3,2,2,3>; template struct PxM<4,3,2,4,2>; template struct PxM<4,3,3,3,2>; template struct PxM<4,3,3,2,3>; template struct PxM<4,3,3,4,2>; template struct MxP<1,3,0,2,3>;
template struct MxP<1,3,0,3,2>; template struct MxP<1,3,0,2,4>; template struct MxP<1,3,1,2,3>; template struct MxP<1,3,1,3,2>; template struct MxP<1,3,1,2,4>; template struct MxP<1,3,2,2,3>;
template struct MxP<1,3,2,3,2>; template struct MxP<1,3,2,2,4>; template struct MxP<1,3,3,2,3>; template struct MxP<1,3,3,3,2>; template struct MxP<1,3,3,2,4>; template struct MxP<3,3,0,2,3>;
template struct MxP<3,3,0,3,2>; template struct MxP<3,3,0,2,4>; template struct MxP<3,3,1,2,3>; template struct MxP<3,3,1,3,2>; template struct MxP<3,3,1,2,4>; template struct MxP<3,3,2,2,3>;
template struct MxP<3,3,2,3,2>; template struct MxP<3,3,2,2,4>; template struct MxP<3,3,3,2,3>; template struct MxP<3,3,3,3,2>; template struct MxP<3,3,3,2,4>; template struct MxP<4,3,0,2,3>;
template struct MxP<4,3,0,3,2>; template struct MxP<4,3,0,2,4>; template struct MxP<4,3,1,2,3>; template struct MxP<4,3,1,3,2>; template struct MxP<4,3,1,2,4>; template struct MxP<4,3,2,2,3>;
template struct MxP<4,3,2,3,2>; template struct MxP<4,3,2,2,4>; template struct MxP<4,3,3,2,3>; template struct MxP<4,3,3,3,2>; template struct MxP<4,3,3,2,4>;
