// the K-th permutation of N elements, as compile-time data
#pragma once
#include "m.h"
#include <geomc/linalg/mtxtypes/PermutationMatrix.h>
template <index_t N> struct PermTab { index_t p[N]; constexpr PermTab(int k) : p{} { index_t pool[N]; for (index_t i = 0; i < N; ++i) pool[i] = i; index_t n = N; for (index_t i = 0; i < N; ++i) { int f = 1; for (index_t j = 2; j < n; ++j) f *= j; int q = (k / f) % n; k %= f; p[i] = pool[q]; for (index_t j = q; j + 1 < n; ++j) pool[j] = pool[j+1]; --n; } } };
template <index_t N> constexpr int perm_parity(const index_t* p) { int inv = 0; for (index_t i = 0; i < N; ++i) for (index_t j = i+1; j < N; ++j) inv += p[i] > p[j]; return inv & 1 ? -1 : 1; }
template <int K, index_t N> struct PT { static constexpr PermTab<N> t{K}; };
// dense matrix whose row i is row p[i] of the identity
template <class T> inline void dense(const index_t* p, T* o, index_t n) { FOR(i,n) FOR(j,n) o[i*n+j] = p[i] == j; }
template <int K, index_t N> inline PermutationMatrix<N> PM() { PermutationMatrix<N> P; P.setRowSources(PT<K,N>::t.p); return P; }
template <int K, index_t N> inline PermutationMatrix<0> PD() { PermutationMatrix<0> P(N); P.setRowSources(PT<K,N>::t.p); return P; }
#define P3(S) template struct S<0,3>; template struct S<1,3>; template struct S<2,3>; template struct S<3,3>; template struct S<4,3>; template struct S<5,3>;
#define P4(S) template struct S<0,4>; template struct S<1,4>; template struct S<2,4>; template struct S<3,4>; template struct S<4,4>; template struct S<5,4>; template struct S<6,4>; template struct S<7,4>; template struct S<8,4>; template struct S<9,4>; template struct S<10,4>; template struct S<11,4>; template struct S<12,4>; template struct S<13,4>; template struct S<14,4>; template struct S<15,4>; template struct S<16,4>; template struct S<17,4>; template struct S<18,4>; template struct S<19,4>; template struct S<20,4>; template struct S<21,4>; template struct S<22,4>; template struct S<23,4>;
#define P5(S) template struct S<31,5>; template struct S<57,5>; template struct S<74,5>; template struct S<119,5>; template struct S<90,5>;
#define PALL(S) P3(S) P4(S) P5(S)
// A = P^T L U for the K-th permutation, unit lower triangular L with fixed multipliers of magnitude at most 1/2, and symbolic
// U (row-major n*n input u, upper part) with positive diagonal: every elimination with partial pivoting takes one course
template <class T> inline T plu_l(index_t r, index_t c) { return r == c ? T(1) : r < c ? T(0) : T((r*7 + c*3) % 5 - 2) / 4; }
template <class T> inline void plu_assume(const T* u, index_t n) { FOR(i,n) vg_assume(u[i*n+i] > 0); }
// zero: index of a diagonal element of U that is 0 (or -1)
template <class T> inline void plu_make(const T* u, const index_t* p, T* a, index_t n, index_t zero = -1) { FOR(r,n) FOR(c,n) { T s = 0; for (index_t k = 0; k <= c && k <= r; ++k) s += plu_l<T>(r, k) * (k == c && k == zero ? T(0) : u[k*n+c]); a[p[r]*n+c] = s; } }
