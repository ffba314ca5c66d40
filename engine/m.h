// matrix helpers of the witness units: a matrix is loaded from and stored to a row-major array through set() and (r,c)
#pragma once
#include "w.h"
#include <geomc/linalg/Matrix.h>
template <class Mx, class T> inline void ldm(Mx& m, const T* a) { index_t C = m.cols(); FOR(r,m.rows()) FOR(c,C) m.set(r, c, a[r*C + c]); }
template <class Mx, class T> inline void svm(T* o, const Mx& m) { index_t C = m.cols(); FOR(r,m.rows()) FOR(c,C) o[r*C + c] = m(r, c); }
template <class D, class T> inline void ldd(D& m, const T* a) { index_t n = m.diagonal_end() - m.diagonal_begin(); FOR(i,n) m.diagonal(i) = a[i]; }
#define RM ROW_MAJOR
#define CM COL_MAJOR
template <class T, index_t M, index_t N, MatrixLayout L=RM> inline SimpleMatrix<T,M,N,L> MX(const T* a) { SimpleMatrix<T,M,N,L> m; ldm(m, a); return m; }
template <class T, index_t M, index_t N, MatrixLayout L=RM> inline SimpleMatrix<T,0,0,L> DY(const T* a) { SimpleMatrix<T,0,0,L> m(M, N); ldm(m, a); return m; }
template <class T> inline void spec_mul(const T* a, const T* b, T* o, index_t M, index_t K, index_t N) { FOR(r,M) FOR(c,N) { T s = 0; FOR(k,K) s += a[r*K+k]*b[k*N+c]; o[r*N+c] = s; } }
template <class T> inline void spec_tr(const T* a, T* o, index_t M, index_t N) { FOR(r,M) FOR(c,N) o[c*M+r] = a[r*N+c]; }
#define D3(S,T) template struct S<T,2,2,2>; template struct S<T,3,3,3>; template struct S<T,2,3,4>; template struct S<T,4,2,3>; template struct S<T,1,3,2>; template struct S<T,3,1,3>; template struct S<T,4,4,4>;
#define D3S(S,T) template struct S<T,2,2,2>; template struct S<T,2,3,4>; template struct S<T,4,2,3>;
#define D2(S,T) template struct S<T,2,2>; template struct S<T,3,3>; template struct S<T,2,3>; template struct S<T,4,2>; template struct S<T,1,3>; template struct S<T,4,4>; template struct S<T,3,4>;
#define D1(S,T) template struct S<T,2>; template struct S<T,3>; template struct S<T,4>; template struct S<T,5>;
#define T3 template <class T, index_t M, index_t K, index_t N>
#define T2 template <class T, index_t M, index_t N>
