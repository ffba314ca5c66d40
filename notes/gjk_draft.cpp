#include "w.h"
#include <geomc/shape/Intersect.h>
template <index_t N> inline Vec<double,N> V(const double* a) { return ld<double,N>(a); }
template <index_t N> inline Simplex<double,N> SX(const double* a, index_t n) { Vec<double,N> v[N+1]; FOR(i,n) v[i] = V<N>(a + i*N); return Simplex<double,N>(v, n); }
static constexpr double T2[6][6] = {{0,0, 4,0, 2,3}, {0,0, 5,0, -2,1}, {1,1, 1,4, 5,1}, {0,0, 1,3, 8,-1}, {-3,2, 4,1, 3,-1}, {2,2, -2,3, 0,-1}};
template <int Q> struct Pt { static bool impl(const double* p) { auto a = as_any_convex(SX<2>(T2[Q], 3)), b = as_any_convex(SX<2>(p, 1)); return intersects<double,2>(a, b); } static bool spec(const double* p) { return SX<2>(T2[Q], 3).contains(V<2>(p)); } };
template struct Pt<0>;
