// Permutation matrices: every permutation of three and four elements, several of five.
#include "perm.h"
#define PK template <int K, index_t N>
#define SRC const index_t* p = PT<K,N>::t.p
PK struct Elems { static void impl(int* o) { auto P = PM<K,N>(); FOR(r,N) FOR(c,N) o[r*N+c] = P(r,c); o[N*N] = P.rows(); o[N*N+1] = P.cols(); } static void spec(int* o) { SRC; dense(p, o, N); o[N*N] = o[N*N+1] = N; } }; PALL(Elems)
// the four views of the same permutation
PK struct Maps { static void impl(long* o) { auto P = PM<K,N>(); FOR(i,N) { o[i] = P.getRowSources()[i]; o[N+i] = P.getRowDestinations()[i]; o[2*N+i] = P.getColSources()[i]; o[3*N+i] = P.getColDestinations()[i]; } }
  static void spec(long* o) { SRC; FOR(i,N) { o[i] = o[3*N+i] = p[i]; o[N+p[i]] = o[2*N+p[i]] = i; } } }; PALL(Maps)
PK struct Setters { static void impl(int* o) { SRC; PermutationMatrix<N> A, B, C, D; A.setRowDestinations(p); B.setColSources(p); C.setColDestinations(p); D.setRowSources(p); D.transpose(); FOR(r,N) FOR(c,N) { o[r*N+c] = A(r,c); o[N*N+r*N+c] = B(r,c); o[2*N*N+r*N+c] = C(r,c); o[3*N*N+r*N+c] = D(r,c); } }
  static void spec(int* o) { SRC; index_t q[N]; FOR(i,N) q[p[i]] = i; dense(q, o, N); dense(q, o+N*N, N); dense(p, o+2*N*N, N); dense(q, o+3*N*N, N); } }; PALL(Setters)
PK struct Swaps { static void impl(int* o) { index_t k = 0; FOR(a,N) FOR(b,N) { auto P = PM<K,N>(); P.swap_rows(a, b); auto Q = PM<K,N>(); Q.swap_cols(a, b); auto R = PM<K,N>(); R.transpose(); R.swap_rows(a, b); FOR(r,N) FOR(c,N) { o[k++] = P(r,c); o[k++] = Q(r,c); o[k++] = R(r,c); } FOR(r,N) { o[k++] = P.getRowSources()[P.getRowDestinations()[r]]; o[k++] = Q.getRowSources()[Q.getRowDestinations()[r]]; o[k++] = R.getRowSources()[R.getRowDestinations()[r]]; } } }
  static void spec(int* o) { SRC; index_t k = 0; FOR(a,N) FOR(b,N) { int P[N*N], Q[N*N], R[N*N]; dense(p, P, N); dense(p, Q, N); spec_tr(P, R, N, N); FOR(c,N) { std::swap(P[a*N+c], P[b*N+c]); std::swap(R[a*N+c], R[b*N+c]); } FOR(r,N) std::swap(Q[r*N+a], Q[r*N+b]); FOR(r,N) FOR(c,N) { o[k++] = P[r*N+c]; o[k++] = Q[r*N+c]; o[k++] = R[r*N+c]; } FOR(r,N) { o[k++] = r; o[k++] = r; o[k++] = r; } } } };
P3(Swaps) template struct Swaps<7,4>; template struct Swaps<17,4>;
PK struct Sign { static void impl(long* o) { auto P = PM<K,N>(); o[0] = P.sign(); o[1] = P.sign(); FOR(i,N) o[2+i] = P.getRowDestinations()[P.getRowSources()[i]]; P.swap_rows(0, 1); o[2+N] = P.sign(); P.transpose(); o[3+N] = P.sign(); P.swap_cols(1, 2); o[4+N] = P.sign(); }
  static void spec(long* o) { SRC; int s = perm_parity<N>(p); o[0] = o[1] = s; FOR(i,N) o[2+i] = i; o[2+N] = o[3+N] = -s; o[4+N] = s; } }; PALL(Sign)
PK struct SignFn { static void impl(long* o) { SRC; index_t q[N]; FOR(i,N) q[i] = p[i]; o[0] = permutation_sign(q, N); } static void spec(long* o) { SRC; o[0] = perm_parity<N>(p); } }; PALL(SignFn)
PK struct Apply { static void impl(const double* a, double* o) { SRC; index_t q[N]; FOR(i,N) { q[i] = p[i]; o[i] = a[i]; } permutation_apply(q, N, o); } static void spec(const double* a, double* o) { SRC; FOR(i,N) o[i] = a[p[i]]; } }; PALL(Apply)
PK struct Dyn { static void impl(int* o) { auto P = PD<K,N>(); FOR(r,N) FOR(c,N) o[r*N+c] = P(r,c); P.transpose(); FOR(r,N) FOR(c,N) o[N*N+r*N+c] = P(r,c); o[2*N*N] = P.rows(); o[2*N*N+1] = P.sign(); } static void spec(int* o) { SRC; dense(p, o, N); spec_tr(o, o+N*N, N, N); o[2*N*N] = N; o[2*N*N+1] = perm_parity<N>(p); } }; P3(Dyn) template struct Dyn<9,4>;
// products
PK struct MulMat { static void impl(const double* a, double* o) { auto P = PM<K,N>(); auto A = MX<double,N,2>(a); svm(o, P*A); auto B = MX<double,2,N>(a); svm(o+2*N, B*P); auto C = MX<double,N,2,CM>(a); svm(o+4*N, P*C); auto D = MX<double,2,N,CM>(a); svm(o+6*N, D*P); }
  static void spec(const double* a, double* o) { SRC; double P[N*N]; dense(p, P, N); spec_mul(P, a, o, N, N, 2); spec_mul(a, P, o+2*N, 2, N, N); spec_mul(P, a, o+4*N, N, N, 2); spec_mul(a, P, o+6*N, 2, N, N); } }; PALL(MulMat)
PK struct MulSelf { static void impl(const double* a, double* o) { auto P = PM<K,N>(); auto A = MX<double,N,N>(a); mul(&A, P, A); svm(o, A); auto B = MX<double,N,N>(a); mul(&B, B, P); svm(o+N*N, B); Vec<double,N> v(a); mul(&v, P, v); sv(o+2*N*N, v); }
  static void spec(const double* a, double* o) { SRC; double P[N*N]; dense(p, P, N); spec_mul(P, a, o, N, N, N); spec_mul(a, P, o+N*N, N, N, N); spec_mul(P, a, o+2*N*N, N, N, 1); } }; P3(MulSelf) template struct MulSelf<9,4>;
PK struct MulVec { static void impl(const double* a, double* o) { auto P = PM<K,N>(); Vec<double,N> v(a); sv(o, P*v); sv(o+N, v*P); } static void spec(const double* a, double* o) { SRC; double P[N*N]; dense(p, P, N); spec_mul(P, a, o, N, N, 1); spec_mul(a, P, o+N, 1, N, N); } }; PALL(MulVec)
template <int K, int J, index_t N> struct MulPerm { static void impl(int* o) { auto P = PM<K,N>() * PM<J,N>(); FOR(r,N) FOR(c,N) o[r*N+c] = P(r,c); o[N*N] = P.sign(); FOR(i,N) o[N*N+1+i] = P.getRowDestinations()[P.getRowSources()[i]]; SimpleMatrix<int,N,N> d; mul(&d, PM<K,N>(), PM<J,N>()); svm(o+N*N+1+N, d); PermutationMatrix<N> q = PM<K,N>(); mul(&q, q, PM<J,N>()); FOR(r,N) FOR(c,N) o[2*N*N+1+N+r*N+c] = q(r,c); }
  static void spec(int* o) { const index_t* p = PT<K,N>::t.p; const index_t* q = PT<J,N>::t.p; int A[N*N], B[N*N]; dense(p, A, N); dense(q, B, N); spec_mul(A, B, o, N, N, N); o[N*N] = perm_parity<N>(p) * perm_parity<N>(q); FOR(i,N) o[N*N+1+i] = i; spec_mul(A, B, o+N*N+1+N, N, N, N); spec_mul(A, B, o+2*N*N+1+N, N, N, N); } };
#define PP(K) template struct MulPerm<K,0,3>; template struct MulPerm<K,1,3>; template struct MulPerm<K,2,3>; template struct MulPerm<K,3,3>; template struct MulPerm<K,4,3>; template struct MulPerm<K,5,3>;
PP(0) PP(1) PP(2) PP(3) PP(4) PP(5) template struct MulPerm<9,14,4>; template struct MulPerm<21,7,4>;
PK struct Trans { static void impl(int* o) { auto P = transpose(PM<K,N>()); FOR(r,N) FOR(c,N) o[r*N+c] = P(r,c); bool ok; auto Q = inv(PM<K,N>(), &ok); FOR(r,N) FOR(c,N) o[N*N+r*N+c] = Q(r,c); o[2*N*N] = ok; o[2*N*N+1] = PM<K,N>() == PM<K,N>(); } static void spec(int* o) { SRC; int A[N*N]; dense(p, A, N); FOR(i,2) spec_tr(A, o+i*N*N, N, N); o[2*N*N] = 1; o[2*N*N+1] = 1; } }; P3(Trans) template struct Trans<9,4>;
