// Inverses: result * argument = identity whenever reported invertible; reported singular exactly when the determinant is 0.
#include "m.h"
#include "perm.h"
template <class T> inline T lap(const T* a, index_t n) { if (n == 1) return a[0]; T s = 0; T sg = 1;
  for (index_t k = 0; k < n; ++k) { T b[16]; for (index_t r = 1; r < n; ++r) { index_t q = 0; for (index_t c = 0; c < n; ++c) if (c != k) b[(r-1)*(n-1) + q++] = a[r*n+c]; } s = s + sg * a[k] * lap(b, n-1); sg = -sg; } return s; }
// adjugate over determinant
template <class T> inline void adj(const T* a, T* o, index_t n) { if (n == 1) { o[0] = T(1) / a[0]; return; } T d = lap(a, n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) { T b[16]; index_t q = 0; for (index_t r = 0; r < n; ++r) for (index_t c = 0; c < n; ++c) if (r != j && c != i) b[q++] = a[r*n+c]; T m = lap(b, n-1); o[i*n+j] = ((i + j) % 2 ? -m : m) / d; } }
template <class T, index_t N> struct InvRaw { static bool go(T* d, const T* s) { if constexpr (N == 2) return inv2x2(d, s); else if constexpr (N == 3) return inv3x3(d, s); else return inv4x4(d, s); } };
template <class T, index_t N> struct Flat { static void impl(const T* a, T* o) { T b[N*N]; bool k = InvRaw<T,N>::go(b, a); vg_assume(lap(a, N) != 0); o[0] = k; FOR(i,N*N) o[1+i] = b[i]; FOR(i,N*N) b[i] = a[i]; k = InvRaw<T,N>::go(b, b); o[1+N*N] = k; FOR(i,N*N) o[2+N*N+i] = b[i]; }
  static void spec(const T* a, T* o) { T b[N*N]; adj(a, b, N); o[0] = o[1+N*N] = 1; FOR(i,N*N) o[1+i] = o[2+N*N+i] = b[i]; } };
template struct Flat<double,2>; template struct Flat<double,3>; template struct Flat<double,4>; template struct Flat<float,3>;
// singular: reported, output untouched
template <class T, index_t N> struct FlatSing { static void impl(const T* a, T* o) { T b[N*N]; FOR(i,N*N) b[i] = T(i); vg_assume(lap(a, N) == 0); o[0] = InvRaw<T,N>::go(b, a); FOR(i,N*N) o[1+i] = b[i]; }
  static void spec(const T* a, T* o) { o[0] = 0; FOR(i,N*N) o[1+i] = T(i); } };
template struct FlatSing<double,2>; template struct FlatSing<double,3>; template struct FlatSing<double,4>;
// matrix objects of every layout pair, static and dynamic, through both forms of inv()
template <class T, index_t N, MatrixLayout LA, MatrixLayout LB> struct Inv { static constexpr int S = N*N+1;
  static void impl(const T* a, T* o) { vg_assume(lap(a, N) != 0); auto A = MX<T,N,N,LA>(a); bool k; svm(o, inv(A, &k)); o[N*N] = k; SimpleMatrix<T,N,N,LB> d; o[S+N*N] = inv(&d, A); svm(o+S, d); SimpleMatrix<T,0,0,LB> e(N,N); o[2*S+N*N] = inv(&e, A); svm(o+2*S, e); auto D = DY<T,N,N,LA>(a); o[3*S+N*N] = inv(&d, D); svm(o+3*S, d); o[4*S+N*N] = inv(&e, D); svm(o+4*S, e); o[5*S+N*N] = inv(&A, A); svm(o+5*S, A); }
  static void spec(const T* a, T* o) { T b[N*N]; adj(a, b, N); FOR(k,6) { FOR(i,N*N) o[k*S+i] = b[i]; o[k*S+N*N] = 1; } } };
#define IV(N) template struct Inv<double,N,RM,RM>; template struct Inv<double,N,RM,CM>; template struct Inv<double,N,CM,RM>; template struct Inv<double,N,CM,CM>;
IV(1) IV(2) IV(3) IV(4)
// and every storage: user-provided, shared and unique buffers
template <class T, index_t N, MatrixLayout LA, MatrixLayout LB> struct InvStore { static constexpr int S = N*N+1;
  static void impl(const T* a, T* o) { vg_assume(lap(a, N) != 0); T u[N*N], w[N*N]; auto A = MX<T,N,N,LA>(a); SimpleMatrix<T,N,N,LA,STORAGE_WRAPPED> U(u); ldm(U, a); SimpleMatrix<T,N,N,LB,STORAGE_WRAPPED> W(w); o[N*N] = inv(&W, A); svm(o, W); SimpleMatrix<T,N,N,LB> d; o[S+N*N] = inv(&d, U); svm(o+S, d); SimpleMatrix<T,N,N,LB,STORAGE_SHARED> s; o[2*S+N*N] = inv(&s, U); svm(o+2*S, s); o[3*S+N*N] = inv(&W, s); svm(o+3*S, W); SimpleMatrix<T,0,0,LB,STORAGE_WRAPPED> X(w, N, N); o[4*S+N*N] = inv(&X, A); svm(o+4*S, X); SimpleMatrix<T,N,0,LB,STORAGE_WRAPPED> Y(w, N); o[5*S+N*N] = inv(&Y, U); svm(o+5*S, Y); bool k; svm(o+6*S, inv(U, &k)); o[6*S+N*N] = k; }
  static void spec(const T* a, T* o) { T b[N*N]; adj(a, b, N); FOR(k,7) { FOR(i,N*N) o[k*S+i] = k == 3 ? a[i] : b[i]; o[k*S+N*N] = 1; } } };
#define IW(N) template struct InvStore<double,N,RM,RM>; template struct InvStore<double,N,RM,CM>; template struct InvStore<double,N,CM,RM>; template struct InvStore<double,N,CM,CM>;
IW(2) IW(3)
template <class T, index_t N, MatrixLayout LA, MatrixLayout LB> struct InvSing { static void impl(const T* a, T* o) { vg_assume(lap(a, N) == 0); auto A = MX<T,N,N,LA>(a); bool k; inv(A, &k); o[0] = k; SimpleMatrix<T,N,N,LB> d; ldm(d, a); o[1] = inv(&d, A); svm(o+3, d); auto D = DY<T,N,N,LA>(a); o[2] = inv(D, &k).rows(); o[2] = k; }
  static void spec(const T* a, T* o) { o[0] = o[1] = o[2] = 0; FOR(i,N*N) o[3+i] = a[i]; } };
template struct InvSing<double,1,RM,RM>; template struct InvSing<double,2,RM,CM>; template struct InvSing<double,3,CM,CM>; template struct InvSing<double,4,RM,RM>;
// general elimination on P L U
template <class T> inline void uinv(const T* u, T* v, index_t n) { FOR(i,n*n) v[i] = 0; for (index_t c = 0; c < n; ++c) { v[c*n+c] = T(1) / u[c*n+c]; for (index_t r = c - 1; r >= 0; --r) { T s = 0; for (index_t k = r + 1; k <= c; ++k) s += u[r*n+k] * v[k*n+c]; v[r*n+c] = -s / u[r*n+r]; } } }
template <class T> inline void linv(T* v, index_t n) { FOR(i,n*n) v[i] = 0; for (index_t c = 0; c < n; ++c) { v[c*n+c] = 1; for (index_t r = c + 1; r < n; ++r) { T s = 0; for (index_t k = c; k < r; ++k) s += plu_l<T>(r, k) * v[k*n+c]; v[r*n+c] = -s; } } }
template <int K, index_t N> struct InvPLU { static constexpr int S = N*N+1; 
  static void impl(const double* u, double* o) { plu_assume(u, N); double b[N*N], d[N*N], e[N*N]; plu_make(u, PT<K,N>::t.p, b, N); FOR(i,N*N) e[i] = b[i]; o[N*N] = invNxN(d, e, N); FOR(i,N*N) o[i] = d[i]; FOR(i,N*N) e[i] = b[i]; o[S+N*N] = invNxN<double,N>(d, e); FOR(i,N*N) o[S+i] = d[i]; auto D = DY<double,N,N,RM>(b); bool k; auto r = inv(D, &k); svm(o+2*S, r); o[2*S+N*N] = k; auto A = MX<double,N,N,RM>(b); svm(o+3*S, inv(A, &k)); o[3*S+N*N] = k; }
  // (P^T L U)^-1 = U^-1 L^-1 P
  static void spec(const double* u, double* o) { double v[N*N], l[N*N]; uinv(u, v, N); linv(l, N); FOR(q,4) { FOR(r,N) FOR(c,N) { double s = 0; FOR(k,N) s += v[r*N+k] * l[k*N+c]; o[q*S + r*N + PT<K,N>::t.p[c]] = s; } o[q*S+N*N] = 1; } } };
P3(InvPLU) P5(InvPLU) template struct InvPLU<3,4>; template struct InvPLU<14,4>; template struct InvPLU<23,4>; template struct InvPLU<301,6>;
template <int K, index_t N, index_t Z> struct InvPLUSing { static void impl(const double* u, double* o) { plu_assume(u, N); double b[N*N], d[N*N], e[N*N]; FOR(i,N*N) d[i] = i; plu_make(u, PT<K,N>::t.p, b, N, Z); FOR(i,N*N) e[i] = b[i]; o[0] = invNxN(d, e, N); FOR(i,N*N) e[i] = b[i]; o[1] = invNxN<double,N>(d, e); FOR(i,N*N) o[4+i] = d[i]; auto A = MX<double,N,N,CM>(b); bool k; inv(A, &k); o[2] = k; auto D = DY<double,N,N,RM>(b); inv(D, &k); o[3] = k; }
  static void spec(const double* u, double* o) { FOR(i,4) o[i] = 0; FOR(i,N*N) o[4+i] = i; } };
template struct InvPLUSing<2,3,2>; template struct InvPLUSing<3,3,1>; template struct InvPLUSing<4,3,0>; template struct InvPLUSing<10,4,3>; template struct InvPLUSing<17,4,2>;
// diagonal
template <index_t N> struct InvDiag { static constexpr int S = N*N+1;
  static void impl(const double* a, double* o) { double p = 1; FOR(i,N) p = p * a[i]; vg_assume(p != 0); DiagMatrix<double,N,N> D; ldd(D, a); bool k; svm(o, inv(D, &k)); o[N*N] = k; DiagMatrix<double,N,N> E; o[S+N*N] = inv(&E, D); svm(o+S, E); SimpleMatrix<double,N,N> F; o[2*S+N*N] = inv(&F, D); svm(o+2*S, F); DiagMatrix<double,0,0> G(N,N); ldd(G, a); o[3*S+N*N] = inv(&G, G); svm(o+3*S, G); o[4*S+N*N] = inv(&D, D); svm(o+4*S, D); }
  static void spec(const double* a, double* o) { FOR(k,5) { FOR(r,N) FOR(c,N) o[k*S+r*N+c] = r == c ? 1 / a[r] : 0; o[k*S+N*N] = 1; } } };
template struct InvDiag<1>; template struct InvDiag<2>; template struct InvDiag<3>; template struct InvDiag<5>;
template <index_t N> struct InvDiagSing { static void impl(const double* a, double* o) { double p = 1; FOR(i,N) p = p * a[i]; vg_assume(p == 0); DiagMatrix<double,N,N> D; ldd(D, a); bool k; inv(D, &k); o[0] = k; o[1] = inv(&D, D); }
  static void spec(const double* a, double* o) { o[0] = o[1] = 0; } };
template struct InvDiagSing<1>; template struct InvDiagSing<2>; template struct InvDiagSing<3>;
// permutations: the inverse is the transpose
template <int K, index_t N> struct InvPerm { static void impl(const double* a, double* o) { auto P = PM<K,N>(); bool k; svm(o, inv(P, &k)); o[N*N] = k; double* q = o+N*N+1; PermutationMatrix<N> Q; q[N*N] = inv(&Q, P); svm(q, Q); q += N*N+1; q[N*N] = inv(&P, P); svm(q, P); q += N*N+1; auto D = PD<K,N>(); svm(q, inv(D, &k)); q[N*N] = k; }
  static void spec(const double* a, double* o) { FOR(k,4) { FOR(r,N) FOR(c,N) o[k*(N*N+1)+r*N+c] = PT<K,N>::t.p[c] == r; o[k*(N*N+1)+N*N] = 1; } } };
P3(InvPerm) P5(InvPerm)
