// Matrix storage: layout, element access, row, column, body and region iterators, wrappers and handles.
#include "m.h"
template <class T, index_t M, index_t N, MatrixLayout L> struct Access { static void impl(const T* a, T* o) { SimpleMatrix<T,M,N,L> m; T* p = m.data_begin(); FOR(i,M*N) p[i] = a[i]; const auto& c = m; index_t k = 0; FOR(r,M) FOR(q,N) { o[k++] = m(r,q); o[k++] = c(r,q); o[k++] = m[r][q]; o[k++] = c[r][q]; o[k++] = *(m.row(r) + q); o[k++] = *(c.row(r) + q); o[k++] = *(m.col(q) + r); o[k++] = *(c.col(q) + r); o[k++] = m.begin()[r*N+q]; o[k++] = *(c.begin() + (r*N+q)); } o[k++] = m.end() - m.begin(); o[k++] = c.end() - c.begin(); o[k++] = m.data_end() - m.data_begin(); o[k++] = m.rows(); o[k++] = m.cols(); }
  static void spec(const T* a, T* o) { index_t k = 0; FOR(r,M) FOR(q,N) { T x = L == RM ? a[r*N+q] : a[q*M+r]; FOR(i,10) o[k++] = x; } o[k++] = M*N; o[k++] = M*N; o[k++] = M*N; o[k++] = M; o[k++] = N; } };
template <class T, index_t M, index_t N, MatrixLayout L> struct AccessD { static void impl(const T* a, T* o) { SimpleMatrix<T,0,0,L> m(M, N); T* p = m.data_begin(); FOR(i,M*N) p[i] = a[i]; const auto& c = m; index_t k = 0; FOR(r,M) FOR(q,N) { o[k++] = m(r,q); o[k++] = c(r,q); o[k++] = m[r][q]; o[k++] = c[r][q]; o[k++] = *(m.row(r) + q); o[k++] = *(c.row(r) + q); o[k++] = *(m.col(q) + r); o[k++] = *(c.col(q) + r); o[k++] = m.begin()[r*N+q]; o[k++] = *(c.begin() + (r*N+q)); } o[k++] = m.end() - m.begin(); o[k++] = c.end() - c.begin(); o[k++] = m.data_end() - m.data_begin(); o[k++] = m.rows(); o[k++] = m.cols(); }
  static void spec(const T* a, T* o) { Access<T,M,N,L>::spec(a, o); } };
// walking with iterators, forwards, backwards and to the end of a row or column
template <class T, index_t M, index_t N, MatrixLayout L> struct Walk { static void impl(const T* a, T* o) { auto m = MX<T,M,N,L>(a); const auto& c = m; index_t k = 0; for (auto i = m.begin(); i != m.end(); ++i) o[k++] = *i; for (auto i = c.begin(); i != c.end(); i++) o[k++] = *i; for (auto i = m.end(); i != m.begin();) o[k++] = *--i; FOR(r,M) for (auto i = m.row(r); i != m.row(r) + N; ++i) o[k++] = *i; FOR(q,N) for (auto i = c.col(q); i != c.col(q) + M; ++i) o[k++] = *i; FOR(r,M) { o[k++] = m.row(r+1) - m.row(r); auto i = m.row(0); i += r*N; o[k++] = i == m.row(r); } FOR(q,N) { o[k++] = m.col(q+1) - m.col(q); o[k++] = m.col(q) - m.col(0); } auto j = m.row(0); j = m.row(M-1); o[k++] = *j; auto l = c.col(0); l = c.col(N-1); o[k++] = *l; }
  static void spec(const T* a, T* o) { index_t k = 0; FOR(j,2) FOR(i,M*N) o[k++] = a[i]; FOR(i,M*N) o[k++] = a[M*N-1-i]; FOR(i,M*N) o[k++] = a[i]; FOR(q,N) FOR(r,M) o[k++] = a[r*N+q]; FOR(r,M) { o[k++] = N; o[k++] = 1; } FOR(q,N) { o[k++] = M; o[k++] = q*M; } o[k++] = a[(M-1)*N]; o[k++] = a[N-1]; } };
// writing through each access path changes the one element addressed
template <class T, index_t M, index_t N, MatrixLayout L> struct Write { static void impl(const T* a, T x, T* o) { index_t k = 0; FOR(r,M) FOR(q,N) { { auto m = MX<T,M,N,L>(a); m.set(r,q,x); svm(o+k, m); k += M*N; } { auto m = MX<T,M,N,L>(a); m(r,q) = x; svm(o+k, m); k += M*N; } { auto m = MX<T,M,N,L>(a); m[r][q] = x; svm(o+k, m); k += M*N; } { auto m = MX<T,M,N,L>(a); *(m.col(q) + r) = x; svm(o+k, m); k += M*N; } { auto m = MX<T,M,N,L>(a); *(m.begin() + (r*N+q)) = x; svm(o+k, m); k += M*N; } { auto m = MX<T,M,N,L>(a); m.set(r,q,x) = x+1; svm(o+k, m); k += M*N; } } }
  static void spec(const T* a, T x, T* o) { index_t k = 0; FOR(r,M) FOR(q,N) FOR(j,6) FOR(i,M*N) o[k++] = i == r*N+q ? (j == 5 ? x+1 : x) : a[i]; } };
#define AL(S) template struct S<double,2,2,RM>; template struct S<double,2,2,CM>; template struct S<double,2,3,RM>; template struct S<double,2,3,CM>; template struct S<double,4,2,RM>; template struct S<double,4,2,CM>; template struct S<double,1,3,RM>; template struct S<double,3,1,CM>; template struct S<double,3,3,CM>; template struct S<double,3,4,RM>; template struct S<double,3,4,CM>;
AL(Access) AL(AccessD) AL(Walk) AL(Write)
// regions [lo, hi] of a matrix, in row-major order
template <class T, MatrixLayout L, index_t R0, index_t C0, index_t R1, index_t C1> struct Region { static void impl(const T* a, T x, T* o) { auto m = MX<T,3,4,L>(a); const auto& c = m; MatrixRegion g(Vec<index_t,2>(R0,C0), Vec<index_t,2>(R1,C1)); index_t k = 0; for (auto i = c.region_begin(g); i != c.region_end(g); ++i) { o[k++] = *i; o[k++] = i.point()[0]; o[k++] = i.point()[1]; } o[k++] = c.region_end(g) - c.region_begin(g); for (auto i = m.region_begin(g); i != m.region_end(g); ++i) *i = x; svm(o+k, m); }
  static void spec(const T* a, T x, T* o) { index_t k = 0; FOR(r,3) FOR(q,4) if (r >= R0 && r <= R1 && q >= C0 && q <= C1) { o[k++] = a[r*4+q]; o[k++] = r; o[k++] = q; } o[k++] = (R1-R0+1)*(C1-C0+1); FOR(r,3) FOR(q,4) o[k++] = (r >= R0 && r <= R1 && q >= C0 && q <= C1) ? x : a[r*4+q]; } };
#define RG(L) template struct Region<double,L,0,0,2,3>; template struct Region<double,L,1,1,2,2>; template struct Region<double,L,0,2,1,3>; template struct Region<double,L,2,0,2,3>; template struct Region<double,L,0,3,2,3>; template struct Region<double,L,1,2,1,2>;
RG(RM) RG(CM)
// iterators of the computed matrix kinds
T2 struct DiagIter { static void impl(const T* a, T* o) { DiagMatrix<T,M,N> m; ldd(m, a); index_t k = 0; for (auto i = m.begin(); i != m.end(); ++i) o[k++] = *i; FOR(r,M) for (auto i = m.row(r); i != m.row(r) + N; ++i) o[k++] = *i; FOR(q,N) for (auto i = m.col(q); i != m.col(q) + M; ++i) o[k++] = *i; FOR(r,M) FOR(q,N) o[k++] = m[r][q]; o[k++] = m.end() - m.begin(); auto i = m.begin(); i += N; o[k++] = i - m.begin(); o[k++] = m.diagonal_end() - m.diagonal_begin(); }
  static void spec(const T* a, T* o) { index_t k = 0; FOR(j,4) FOR(i,M*N) { index_t r = j == 2 ? i % M : i / N, q = j == 2 ? i / M : i % N; o[k++] = r == q ? a[r] : T(0); } o[k++] = M*N; o[k++] = N; o[k++] = M<N?M:N; } }; D2(DiagIter,double)
// wrapped storage: reads, writes and arithmetic act on the caller's memory
template <class T, index_t M, index_t N, MatrixLayout L> struct Wrap { static void impl(const T* a, const T* b, T* o) { T u[M*N], v[M*N], w[M*N]; FOR(i,M*N) { u[i] = a[i]; v[i] = b[i]; w[i] = 0; } SimpleMatrix<T,M,N,L,STORAGE_WRAPPED> U(u), V(v), W(w); add(&W, U, V); FOR(i,M*N) o[i] = w[i]; U.set(0, N-1, T(5)); FOR(i,M*N) o[M*N+i] = u[i]; auto U2 = U; U2.set_zero(); FOR(i,M*N) o[2*M*N+i] = u[i]; auto S = V + W; svm(o+3*M*N, S); auto K = T(2)*V; svm(o+4*M*N, K); FOR(i,M*N) o[5*M*N+i] = v[i]; V *= T(3); FOR(i,M*N) o[6*M*N+i] = v[i]; auto t = transpose(V); svm(o+7*M*N, t); }
  static void spec(const T* a, const T* b, T* o) { FOR(i,M*N) { o[i] = a[i]+b[i]; o[M*N+i] = i == (L == RM ? N-1 : M*(N-1)) ? T(5) : a[i]; o[2*M*N+i] = 0; o[5*M*N+i] = b[i]; o[6*M*N+i] = 3*b[i]; } FOR(r,M) FOR(c,N) { T x = L == RM ? b[r*N+c] : b[c*M+r], y = L == RM ? a[r*N+c] : a[c*M+r]; o[3*M*N+r*N+c] = x + (y + x); o[4*M*N+r*N+c] = 2*x; o[7*M*N+c*M+r] = 3*x; } } };
template struct Wrap<double,2,2,RM>; template struct Wrap<double,2,3,CM>; template struct Wrap<double,3,2,RM>;
template <class T, index_t M, index_t N> struct WrapD { static void impl(const T* a, T* o) { T u[M*N]; FOR(i,M*N) u[i] = a[i]; SimpleMatrix<T,0,0,RM,STORAGE_WRAPPED> U(u, M, N); SimpleMatrix<T,0,N,CM,STORAGE_WRAPPED> V(u, M); SimpleMatrix<T,M,0,RM,STORAGE_WRAPPED> W(u, N); svm(o, U); svm(o+M*N, V); svm(o+2*M*N, W); svm(o+3*M*N, U*transpose(W)); }
  static void spec(const T* a, T* o) { FOR(i,M*N) o[i] = o[2*M*N+i] = a[i]; FOR(r,M) FOR(c,N) o[M*N+r*N+c] = a[c*M+r]; T t[M*N]; spec_tr(a, t, M, N); spec_mul(a, t, o+3*M*N, M, N, M); } };
template struct WrapD<double,2,2>; template struct WrapD<double,2,3>; template struct WrapD<double,4,2>;
// owned storage: copies are independent, moves and assignments keep the value and the shape
template <class T, index_t M, index_t N> struct Own { static void impl(const T* a, const T* b, T* o) { auto A = DY<T,M,N>(a); auto B = A; B.set_zero(); svm(o, A); auto C = DY<T,N,M+1>(b); C = A; o[M*N] = C.rows(); o[M*N+1] = C.cols(); svm(o+M*N+2, C); A.set_zero(); svm(o+2*M*N+2, C); auto D = std::move(C); svm(o+3*M*N+2, D); auto E = DY<T,N,M+1>(b); E = std::move(D); svm(o+4*M*N+2, E); o[5*M*N+2] = E.rows(); o[5*M*N+3] = E.cols(); E = E; svm(o+5*M*N+4, E); }
  static void spec(const T* a, const T* b, T* o) { FOR(i,M*N) { o[i] = o[M*N+2+i] = o[2*M*N+2+i] = o[3*M*N+2+i] = o[4*M*N+2+i] = o[5*M*N+4+i] = a[i]; } o[M*N] = o[5*M*N+2] = M; o[M*N+1] = o[5*M*N+3] = N; } };
template struct Own<double,2,2>; template struct Own<double,2,3>; template struct Own<double,3,1>;
// construction
template <class T> struct Ctor { static void impl(const T* a, T* o) { SimpleMatrix<T,2,3> A{a[0],a[1],a[2],a[3],a[4],a[5]}; svm(o, A); SimpleMatrix<T,2,3> B(a); svm(o+6, B); SimpleMatrix<T,2,3,CM> C(a); svm(o+12, C); SimpleMatrix<T,0,0> D(a, 2, 3); svm(o+18, D); SimpleMatrix<T,0,0> E({a[0],a[1],a[2],a[3],a[4],a[5]}, 3, 2); svm(o+24, E); SimpleMatrix<T,2,3> F{Vec<T,3>(a), Vec<T,3>(a+3)}; svm(o+30, F); SimpleMatrix<T,2,3,CM> G{Vec<T,2>(a), Vec<T,2>(a+2), Vec<T,2>(a+4)}; svm(o+36, G); SimpleMatrix<T,0,3> H(a, 2); svm(o+42, H); }
  static void spec(const T* a, T* o) { FOR(i,6) { o[i] = o[6+i] = o[18+i] = o[24+i] = o[30+i] = o[42+i] = a[i]; } FOR(r,2) FOR(c,3) o[12+r*3+c] = o[36+r*3+c] = a[c*2+r]; } };
template struct Ctor<double>;
// handles
T2 struct Handle { static void impl(const T* a, T x, T* o) { auto A = MX<T,M,N>(a); MatrixWrapper<SimpleMatrix<T,M,N>> w(&A); MatrixHandle<T>& h = w; index_t k = 0; FOR(r,M) FOR(c,N) o[k++] = h(r,c); o[k++] = h.rows(); o[k++] = h.cols(); h.set(0, N-1, x); svm(o+k, A); k += M*N; h.set_zero(); svm(o+k, A); k += M*N; h.set_identity(); svm(o+k, A); }
  static void spec(const T* a, T x, T* o) { index_t k = 0; FOR(i,M*N) o[k++] = a[i]; o[k++] = M; o[k++] = N; FOR(i,M*N) o[k++] = i == N-1 ? x : a[i]; FOR(i,M*N) o[k++] = 0; FOR(i,M*N) o[k++] = i/N == i%N; } };
template struct Handle<double,2,2>; template struct Handle<double,2,3>;
T2 struct HandleOps { static void impl(const T* a, const T* b, T* o) { auto A = MX<T,M,N>(a); MatrixWrapper<SimpleMatrix<T,M,N>> w(&A); const MatrixHandle<T>& h = w; auto B = MX<T,N,M>(b); SimpleMatrix<T,M,M> d; mul(&d, h, B); svm(o, d); svm(o+M*M, h*B); SimpleMatrix<T,M,N> e; mtxcopy(&e, h); svm(o+2*M*M, e); index_t k = 2*M*M + M*N; FOR(r,M) FOR(c,N) o[k++] = h[r][c]; svm(o+k, transpose(h)); k += M*N; svm(o+k, h+A); }
  static void spec(const T* a, const T* b, T* o) { spec_mul(a, b, o, M, N, M); spec_mul(a, b, o+M*M, M, N, M); FOR(i,M*N) { o[2*M*M+i] = o[2*M*M+M*N+i] = a[i]; o[2*M*M+3*M*N+i] = a[i]+a[i]; } spec_tr(a, o+2*M*M+2*M*N, M, N); } };
template struct HandleOps<double,2,2>; template struct HandleOps<double,2,3>;
