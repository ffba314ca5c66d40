// helpers for affine transforms: homogeneous row-major matrices
#pragma once
#include "m.h"
#include <geomc/linalg/AffineTransform.h>
// a transform with arbitrary symbolic linear part and translation (N x (N+1) input), and an arbitrary symbolic "inverse"
template <index_t N> inline AffineTransform<double,N> AF(const double* m, const double* i) { AffineTransform<double,N> x; FOR(r,N) FOR(c,N+1) { x.mat.set(r, c, m[r*(N+1)+c]); x.inv.set(r, c, i[r*(N+1)+c]); } return x; }
template <index_t N> inline void svx(double* o, const AffineTransform<double,N>& x) { svm(o, x.mat); svm(o + (N+1)*(N+1), x.inv); }
// homogeneous product of two affine matrices given as N x (N+1)
template <index_t N> inline void hom(const double* m, double* h) { FOR(r,N+1) FOR(c,N+1) h[r*(N+1)+c] = r < N ? m[r*(N+1)+c] : c == N; }
template <index_t N> inline void hmul(const double* a, const double* b, double* o) { double A[(N+1)*(N+1)], B[(N+1)*(N+1)]; hom<N>(a, A); hom<N>(b, B); spec_mul(A, B, o, N+1, N+1, N+1); }
template <index_t N> inline void spec_apply(const double* m, const double* p, double* o, double w) { FOR(r,N) { double s = w * m[r*(N+1)+N]; FOR(c,N) s += m[r*(N+1)+c] * p[c]; o[r] = s; } }
