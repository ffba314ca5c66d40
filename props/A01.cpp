// Affine transforms: application, composition, inverse application, change of dimension.
#include "af.h"
template <index_t N> struct Apply { static void impl(const double* m, const double* i, const double* p, double* o) { auto x = AF<N>(m, i); auto v = ld<double,N>(p); sv(o, x.apply(v)); sv(o+N, x * v); sv(o+2*N, x.apply_vector(v)); sv(o+3*N, x.apply_normal(v)); sv(o+4*N, x.apply_inverse(v)); sv(o+5*N, v / x); sv(o+6*N, x.apply_inverse_vector(v)); sv(o+7*N, x.apply_inverse_normal(v)); svm(o+8*N, x.direction_matrix()); svx<N>(o+8*N+N*N, x.inverse()); }
  static void spec(const double* m, const double* i, const double* p, double* o) { FOR(k,2) spec_apply<N>(m, p, o+k*N, 1); spec_apply<N>(m, p, o+2*N, 0); FOR(k,2) spec_apply<N>(i, p, o+4*N+k*N, 1); spec_apply<N>(i, p, o+6*N, 0);
    FOR(r,N) { double s = 0, t = 0; FOR(c,N) { s += i[c*(N+1)+r]*p[c]; t += m[c*(N+1)+r]*p[c]; } o[3*N+r] = s; o[7*N+r] = t; } FOR(r,N) FOR(c,N) o[8*N+r*N+c] = m[r*(N+1)+c]; hom<N>(i, o+8*N+N*N); hom<N>(m, o+8*N+N*N+(N+1)*(N+1)); } };
template struct Apply<2>; template struct Apply<3>; template struct Apply<4>;
template <index_t N> struct Rays { static void impl(const double* m, const double* i, const double* p, const double* d, double* o) { auto x = AF<N>(m, i); Ray<double,N> r(ld<double,N>(p), ld<double,N>(d)); auto a = x * r, b = r / x; sv(o, a.origin); sv(o+N, a.direction); sv(o+2*N, b.origin); sv(o+3*N, b.direction); }
  static void spec(const double* m, const double* i, const double* p, const double* d, double* o) { spec_apply<N>(m, p, o, 1); spec_apply<N>(m, d, o+N, 0); spec_apply<N>(i, p, o+2*N, 1); spec_apply<N>(i, d, o+3*N, 0); } };
template struct Rays<2>; template struct Rays<3>;
// composition: A * B applies B first; the stored inverse composes the other way round
template <index_t N> struct Comp { static constexpr int S = 2*(N+1)*(N+1), H = S/2;
  static void impl(const double* a, const double* ai, const double* b, const double* bi, double* o) { auto A = AF<N>(a, ai), B = AF<N>(b, bi); svx<N>(o, A * B); svx<N>(o+S, B.apply(A)); svx<N>(o+2*S, A / B); svx<N>(o+3*S, A.apply_inverse(B)); auto X = B; X *= A; svx<N>(o+4*S, X); X = A; X /= B; svx<N>(o+5*S, X); }
  static void spec(const double* a, const double* ai, const double* b, const double* bi, double* o) { FOR(k,2) { hmul<N>(a, b, o+k*S); hmul<N>(bi, ai, o+k*S+H); } FOR(k,2) { hmul<N>(bi, a, o+(2+k)*S); hmul<N>(ai, b, o+(2+k)*S+H); } hmul<N>(a, b, o+4*S); hmul<N>(bi, ai, o+4*S+H); hmul<N>(bi, a, o+5*S); hmul<N>(ai, b, o+5*S+H); } };
template struct Comp<2>; template struct Comp<3>;
template <index_t N> struct SelfComp { static constexpr int S = 2*(N+1)*(N+1), H = S/2; static void impl(const double* a, const double* ai, double* o) { auto X = AF<N>(a, ai); X *= X; svx<N>(o, X); X = AF<N>(a, ai); X /= X; svx<N>(o+S, X); }
  static void spec(const double* a, const double* ai, double* o) { hmul<N>(a, a, o); hmul<N>(ai, ai, o+H); hmul<N>(ai, a, o+S); hmul<N>(ai, a, o+S+H); } };
template struct SelfComp<2>; template struct SelfComp<3>;
// comparison looks at the forward transform
template <index_t N> struct Eq { static bool impl(const double* a, const double* b, const double* i) { return AF<N>(a, i) == AF<N>(b, i); } static bool spec(const double* a, const double* b, const double* i) { bool k = true; FOR(j,N*(N+1)) k = k && a[j] == b[j]; return k; } };
template struct Eq<2>; template struct Eq<3>;
template <index_t N> struct Ident { static void impl(const double* a, double* o) { AffineTransform<double,N> x; svx<N>(o, x); } static void spec(const double* a, double* o) { FOR(k,2) FOR(r,N+1) FOR(c,N+1) o[k*(N+1)*(N+1)+r*(N+1)+c] = r == c; } };
template struct Ident<2>; template struct Ident<3>; template struct Ident<4>;
// change of dimension keeps the shared block and the translation
template <index_t N, index_t M> struct Resz { static void impl(const double* a, const double* ai, double* o) { auto x = AF<N>(a, ai).template resized<M>(); svm(o, x.mat); if constexpr (M >= N) svm(o+(M+1)*(M+1), x.inv); }
  static void spec(const double* a, const double* ai, double* o) { constexpr index_t K = M < N ? M : N; FOR(k,(M >= N) ? 2 : 1) FOR(r,M+1) FOR(c,M+1) { const double* s = k ? ai : a; o[k*(M+1)*(M+1) + r*(M+1)+c] = (r < K && c < K) ? s[r*(N+1)+c] : (r < K && c == M) ? s[r*(N+1)+N] : r == c; } } };
template struct Resz<2,3>; template struct Resz<3,2>; template struct Resz<3,3>; template struct Resz<2,4>; template struct Resz<4,2>;
template <index_t N> struct Cast { static void impl(const double* a, const double* ai, double* o) { auto x = static_cast<AffineTransform<float,N>>(AF<N>(a, ai)); FOR(r,N+1) FOR(c,N+1) { o[r*(N+1)+c] = x.mat(r,c); o[(N+1)*(N+1)+r*(N+1)+c] = x.inv(r,c); } }
  static void spec(const double* a, const double* ai, double* o) { hom<N>(a, o); hom<N>(ai, o+(N+1)*(N+1)); } };
template struct Cast<2>; template struct Cast<3>;
