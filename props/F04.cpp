// Rasters: sampled data on a grid, interpolated.
#include "w.h"
#include <geomc/function/Raster.h>
template <index_t M> using GT = typename PointType<index_t,M>::point_t;
template <index_t M> using CT = typename PointType<double,M>::point_t;
template <index_t M> inline GT<M> G(const index_t* a) { if constexpr (M == 1) return *a; else return Vec<index_t,M>(a); }
template <index_t M> inline CT<M> P(const double* a) { if constexpr (M == 1) return *a; else return Vec<double,M>(a); }
template <index_t N> inline void sp(double* o, const typename PointType<double,N>::point_t& p) { if constexpr (N == 1) *o = p; else FOR(i,N) o[i] = p[i]; }
#define CLAMP EDGE_CLAMP
#define WRAP EDGE_PERIODIC
#define MIRR EDGE_MIRROR
#define FILL EDGE_CONSTANT
// index of sample k of n under an edge behaviour; -1 outside
inline index_t edge(EdgeBehavior e, index_t k, index_t n) { if (e == FILL) return k < 0 || k >= n ? -1 : k; if (e == CLAMP) return k < 0 ? 0 : k >= n ? n-1 : k; if (e == WRAP) { index_t r = k % n; return r < 0 ? r + n : r; } if (n == 1) return 0; index_t q = 2*(n-1), r = (k < 0 ? -k : k) % q; return r < n ? r : q - r; }
// sizes: E x E x ... samples of N channels
constexpr index_t pw(index_t e, index_t m) { return m ? e*pw(e, m-1) : 1; }
template <index_t M, index_t E> inline GT<M> ext() { index_t e[M]; FOR(i,M) e[i] = E + i; return G<M>(e); }
template <index_t M, index_t E> constexpr index_t cells() { index_t r = 1; for (index_t i = 0; i < M; ++i) r *= E + i; return r; }
template <index_t M, index_t N, index_t E> inline Raster<double,double,M,N> mk(const double* d) { return Raster<double,double,M,N>(ext<M,E>(), d); }
template <index_t M, index_t N, index_t E> inline void at(const double* d, EdgeBehavior e, const index_t* k, double abyss, double* o) { index_t ix = 0, st = 1; bool in = true; FOR(i,M) { index_t x = edge(e, k[i], E + i); if (x < 0) { in = false; x = 0; } ix += x*st; st *= E + i; } FOR(c,N) o[c] = in ? d[ix*N + c] : abyss; }
// stored samples, under every edge behaviour, chosen statically or at run time; K: grid coordinates
template <index_t M, index_t N, index_t E, EdgeBehavior B, int K0, int K1> struct Disc { static void impl(const double* d, double* o) { auto r = mk<M,N,E>(d); r.setAbyss(typename Raster<double,double,M,N>::sample_t(7)); index_t k[M]; k[0] = K0; if (M > 1) k[M-1] = K1; sp<N>(o, r.template sample_discrete<B>(G<M>(k))); sp<N>(o+N, r.sample_discrete(G<M>(k), B)); o[2*N] = r.contains_gridpt(G<M>(k)); o[2*N+1] = r.samplecount(); o[2*N+2] = r.inputDimension(); o[2*N+3] = r.outputDimension(); FOR(i,M) { o[2*N+4+i] = PointType<index_t,M>::iterator(r.dataExtents())[i]; o[2*N+4+M+i] = PointType<double,M>::iterator(r.domain().lo)[i]; o[2*N+4+2*M+i] = PointType<double,M>::iterator(r.domain().hi)[i]; } }
  static void spec(const double* d, double* o) { index_t k[M]; k[0] = K0; if (M > 1) k[M-1] = K1; FOR(j,2) at<M,N,E>(d, B, k, 7, o+j*N); bool in = true; FOR(i,M) in = in && k[i] >= 0 && k[i] < E + i; o[2*N] = in; o[2*N+1] = cells<M,E>()*N; o[2*N+2] = M; o[2*N+3] = N; FOR(i,M) { o[2*N+4+i] = E+i; o[2*N+4+M+i] = 0; o[2*N+4+2*M+i] = E+i-1; } } };
#define DM(K) template struct Disc<1,1,3,MIRR,K,0>; template struct Disc<1,1,4,MIRR,K,0>;
DM(-4) DM(-6) DM(-3) DM(0) DM(1) DM(4) DM(6) DM(7) DM(9)
#define DI(B) template struct Disc<1,1,3,B,-1,0>; template struct Disc<1,1,3,B,-2,0>; template struct Disc<1,1,3,B,-7,0>; template struct Disc<1,1,3,B,2,0>; template struct Disc<1,1,3,B,3,0>; template struct Disc<1,1,3,B,5,0>; template struct Disc<1,1,3,B,8,0>; template struct Disc<1,2,3,B,4,0>; template struct Disc<2,1,2,B,1,2>; template struct Disc<2,1,2,B,-1,1>; template struct Disc<2,2,2,B,1,-1>; template struct Disc<2,3,2,B,-3,4>; template struct Disc<1,1,1,B,0,0>; template struct Disc<1,1,1,B,2,0>; template struct Disc<2,1,1,B,-1,1>;
DI(EDGE_CLAMP) DI(EDGE_PERIODIC) DI(EDGE_MIRROR) DI(EDGE_CONSTANT)
// any grid coordinate at all
template <EdgeBehavior B, index_t E> struct Any { static double impl(const double* d, index_t k) { vg_assume(k > -1000 && k < 1000); auto r = mk<1,1,E>(d); return r.template sample_discrete<B>(k); } static double spec(const double* d, index_t k) { index_t x = edge(B, k, E); return x < 0 ? 0 : x == 0 ? d[0] : x == 1 ? d[1] : x == 2 ? d[2] : d[3]; } };
template struct Any<CLAMP,3>; template struct Any<FILL,3>; template struct Any<WRAP,3>;  template struct Any<WRAP,1>; template struct Any<MIRR,1>;
// set() writes one sample, and nothing outside
template <int K0, int K1> struct Set { static void impl(const double* d, const double* v, double* o) { auto r = mk<2,2,2>(d); index_t k[2] = { K0, K1 }; r.set(G<2>(k), Vec<double,2>(v)); FOR(x,2) FOR(y,3) { index_t q[2] = { x, y }; sp<2>(o + 2*(x+2*y), r.template sample_discrete<FILL>(G<2>(q))); } } static void spec(const double* d, const double* v, double* o) { FOR(x,2) FOR(y,3) FOR(c,2) o[2*(x+2*y)+c] = x == K0 && y == K1 ? v[c] : d[2*(x+2*y)+c]; } };
template struct Set<0,0>; template struct Set<1,2>; template struct Set<1,0>; template struct Set<2,0>; template struct Set<-1,1>; template struct Set<0,3>;
struct Blank { static void impl(double* o) { Raster<double,double,1,1> r(3); o[0] = r.template sample_discrete<CLAMP>(1); o[1] = r.template sample_discrete<FILL>(5); Raster<double,double,2,2> s(Vec<index_t,2>(2,2), Rect<double,2>(Vec<double,2>(1,2), Vec<double,2>(3,4))); sp<2>(o+2, s.template sample_discrete<CLAMP>(Vec<index_t,2>(1,0))); sp<2>(o+4, s.domain().lo); sp<2>(o+6, s.domain().hi); } static void spec(double* o) { FOR(i,4) o[i] = 0; FOR(i,4) o[4+i] = i+1; } };
void blank_(double* o) { Blank::impl(o); Blank::spec(o); }
// copy of a region: first coordinate consecutive
struct Copy { static void impl(const double* d, double* o) { auto r = mk<2,1,2>(d); double t[6], u[6]; Rect<index_t,2> g(Vec<index_t,2>(0,1), Vec<index_t,2>(2,2)); r.template copy<CLAMP>(t, g); r.copy(u, g, WRAP); FOR(i,6) { o[i] = t[i]; o[6+i] = u[i]; } } static void spec(const double* d, double* o) { FOR(y,2) FOR(x,3) { index_t k[2] = { x, y+1 }; at<2,1,2>(d, CLAMP, k, 0, o + x + 3*y); at<2,1,2>(d, WRAP, k, 0, o + 6 + x + 3*y); } } };
void copy_(const double* d, double* o) { Copy::impl(d, o); Copy::spec(d, o); }
// interpolation in the cell K.. at offset s in [0,1)
inline double cub(const double* p, double s) { return p[1] + s*(p[2]-p[0])/2 + s*s*(2*p[0] - 5*p[1] + 4*p[2] - p[3])/2 + s*s*s*(3*(p[1]-p[2]) + p[3]-p[0])/2; }
template <index_t M, index_t N, index_t E, EdgeBehavior B, Interpolation I, int K0, int K1, bool DYN, int H=0> struct Samp { static void impl(const double* d, const double* s, double* o) { auto r = mk<M,N,E>(d); r.setAbyss(typename Raster<double,double,M,N>::sample_t(7)); double p[M]; FOR(i,M) vg_assume(s[i] >= (H & 1 ? 0.5 : 0.0) && s[i] < (H == 2 ? 0.5 : 1.0)); p[0] = K0 + s[0]; if (M > 1) p[M-1] = K1 + s[M-1]; if constexpr (DYN) sp<N>(o, r.sample(P<M>(p), B, I)); else sp<N>(o, r.template sample<B,I>(P<M>(p))); }
  static void spec(const double* d, const double* s, double* o) { index_t k[M], q[M]; k[0] = K0; if (M > 1) k[M-1] = K1; double t[N];
    if (I == INTERP_NEAREST) { FOR(i,M) q[i] = k[i] + (H == 1); at<M,N,E>(d, B, q, 7, o); return; }
    constexpr int W = I == INTERP_LINEAR ? 2 : 4, O = I == INTERP_LINEAR ? 0 : -1; double row[4][4]; FOR(c,N) { FOR(y,(M > 1 ? W : 1)) FOR(x,W) { q[0] = k[0]+x+O; if (M > 1) q[M-1] = k[M-1]+y+O; at<M,N,E>(d, B, q, 7, t); row[y][x] = t[c]; } double z[4]; FOR(y,(M > 1 ? W : 1)) z[y] = W == 2 ? (1-s[0])*row[y][0] + s[0]*row[y][1] : cub(row[y], s[0]); o[c] = M == 1 ? z[0] : W == 2 ? (1-s[M-1])*z[0] + s[M-1]*z[1] : cub(z, s[M-1]); } } };
#define SA1(B,I,H) template struct Samp<1,1,3,B,I,1,0,false,H>; template struct Samp<1,1,3,B,I,0,0,true,H>; template struct Samp<1,1,3,B,I,-2,0,false,H>; template struct Samp<1,1,3,B,I,-1,0,true,H>; template struct Samp<1,2,3,B,I,2,0,false,H>;
#define SA2(B,I,H) template struct Samp<2,1,2,B,I,0,1,false,H>; template struct Samp<2,1,2,B,I,0,0,true,H>; template struct Samp<2,2,2,B,I,-1,1,true,H>; template struct Samp<2,1,2,B,I,1,-2,false,H>;
#define SA(B) SA1(B,INTERP_NEAREST,1) SA1(B,INTERP_NEAREST,2) SA1(B,INTERP_LINEAR,0) SA1(B,INTERP_CUBIC,0) SA2(B,INTERP_NEAREST,1) SA2(B,INTERP_NEAREST,2) SA2(B,INTERP_LINEAR,0)
SA(EDGE_CLAMP) SA(EDGE_PERIODIC) SA(EDGE_MIRROR) SA(EDGE_CONSTANT) SA2(CLAMP,INTERP_CUBIC,0) SA2(MIRR,INTERP_CUBIC,0) SA2(WRAP,INTERP_CUBIC,0) SA2(FILL,INTERP_CUBIC,0)
// a user domain: its ends are the first and last samples
struct Dom { static void impl(const double* d, double lo, double hi, double* o) { vg_assume(lo < hi); Raster<double,double,1,1> r(3, d, Rect<double,1>(lo, hi)); o[0] = r.template sample<CLAMP,INTERP_LINEAR>(lo); o[1] = r.template sample<CLAMP,INTERP_LINEAR>(hi); o[2] = r.sample((lo+hi)/2); o[3] = r.sample(lo + (hi-lo)*3/4, CLAMP, INTERP_NEAREST); } static void spec(const double* d, double lo, double hi, double* o) { o[0] = d[0]; o[1] = d[2]; o[2] = d[1]; o[3] = d[2]; } };
void dom_(const double* d, double lo, double hi, double* o) { Dom::impl(d, lo, hi, o); Dom::spec(d, lo, hi, o); }
// obligations that are not templates
VG_KEEP(Blank) VG_KEEP(Copy) VG_KEEP(Dom)
