// Rays: points along, projection, distance.
#include "w.h"
#include <geomc/linalg/Ray.h>
template <index_t N> inline Ray<double,N> R_(const double* a, const double* b) { return Ray<double,N>(ld<double,N>(a), ld<double,N>(b)); }
template <index_t N> struct Pts { static void impl(const double* a, const double* b, double s, double* o) { auto r = R_<N>(a, b); sv(o, r.at_multiple(s)); sv(o+N, r * s); sv(o+2*N, s * r); auto m = -r; sv(o+3*N, m.origin); sv(o+4*N, m.direction); Ray<double,N> d; sv(o+5*N, d.origin); sv(o+6*N, d.direction); }
  static void spec(const double* a, const double* b, double s, double* o) { FOR(k,3) FOR(i,N) o[k*N+i] = a[i] + s*b[i]; FOR(i,N) { o[3*N+i] = a[i]; o[4*N+i] = -b[i]; o[5*N+i] = 0; o[6*N+i] = i == 0; } } };
template struct Pts<2>; template struct Pts<3>; template struct Pts<4>;
template <index_t N> struct Dist { static void impl(const double* a, const double* b, double s, double* o) { vg_assume(MAG2(b, N) > 0); sv(o, R_<N>(a, b).at_distance(s)); } static void spec(const double* a, const double* b, double s, double* o) { double l = MAG(b, N); FOR(i,N) o[i] = a[i] + s*b[i]/l; } };
template struct Dist<2>; template struct Dist<3>; template struct Dist<4>;
// the projection is on the line, and what remains is perpendicular; distances measure the remainder
template <index_t N> struct Proj { static void impl(const double* a, const double* b, const double* p, double* o) { vg_assume(MAG2(b, N) > 0); auto r = R_<N>(a, b); sv(o, r.project(ld<double,N>(p))); o[N] = r.dist2(ld<double,N>(p)); o[N+1] = r.sdf(ld<double,N>(p)); }
  static void spec(const double* a, const double* b, const double* p, double* o) { double t = 0, m = MAG2(b, N), d = 0; FOR(i,N) t += (p[i]-a[i])*b[i]; FOR(i,N) { o[i] = a[i] + t/m*b[i]; double e = p[i] - o[i]; d += e*e; } o[N] = d; o[N+1] = sqrt(d); } };
template struct Proj<2>; template struct Proj<3>; template struct Proj<4>;
template <index_t N, index_t M> struct Resz { static void impl(const double* a, const double* b, double* o) { auto r = R_<N>(a, b).template resized<M>(); sv(o, r.origin); sv(o+M, r.direction); } static void spec(const double* a, const double* b, double* o) { FOR(i,M) { o[i] = i < N ? a[i] : 0; o[M+i] = i < N ? b[i] : 0; } } };
template struct Resz<2,3>; template struct Resz<3,2>; template struct Resz<4,2>;
