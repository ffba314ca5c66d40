// Perlin noise.
#include "w.h"
#include <geomc/function/PerlinNoise.h>
template <index_t N> using PN = PerlinNoise<double,N>;
template <index_t N> using PP = typename PN<N>::point_t;
template <index_t N> inline PP<N> lp(const double* a) { if constexpr (N == 1) return *a; else return Vec<double,N>(a); }
template <index_t N> inline void sp(double* o, const PP<N>& p) { if constexpr (N == 1) *o = p; else FOR(i,N) o[i] = p[i]; }
struct Nop { void operator()(void*) const {} };
// noise over an arbitrary table of gradients
template <index_t N> inline const PN<N>& noise(const double* g, Random* r) { auto* p = new PN<N>(r); p->gradients.reset((PP<N>*) g, Nop()); return *p; }
#define RNG(p) FOR(i_,N) vg_assume(p[i_] > -1000000 && p[i_] < 1000000);
inline double fade(double t) { return t*t*t*(t*(t*6 - 15) + 10); }
template <index_t N> struct Eval { static double impl(const double* g, Random* r, const double* p) { RNG(p) return noise<N>(g, r).eval(lp<N>(p)); }
  static double spec(const double* g, Random* r, const double* p) { auto& n = noise<N>(g, r); double s = 0; FOR(c,1<<N) { double q[N], G[N], w = 1, d = 0; FOR(i,N) { q[i] = std::floor(p[i]) + ((c>>i)&1); } sp<N>(G, n.gradient(lp<N>(q)).second); FOR(i,N) { double f = fade(p[i] - std::floor(p[i])); w *= ((c>>i)&1) ? f : 1-f; d += G[i]*(p[i]-q[i]); } s += w*d; } return s; } };
template struct Eval<1>; template struct Eval<2>; template struct Eval<3>;
template <index_t N> struct Grad { static void impl(const double* g, Random* r, const double* p, double* o) { RNG(p) auto x = noise<N>(g, r).gradient(lp<N>(p)); o[0] = x.first; sp<N>(o+1, x.second); }
  static void spec(const double* g, Random* r, const double* p, double* o) { double f = noise<N>(g, r).eval(lp<N>(p)); o[0] = f; FOR(i,N) o[1+i] = vg_diff(f, p[i]); } };
template struct Grad<1>; template struct Grad<2>; template struct Grad<3>;
template <index_t N> struct Lattice { static double impl(const double* g, Random* r, const int* k) { double p[N]; FOR(i,N) p[i] = k[i]; return noise<N>(g, r).eval(lp<N>(p)); } static double spec(const double* g, Random* r, const int* k) { return 0; } };
template struct Lattice<1>; template struct Lattice<2>; template struct Lattice<3>;
