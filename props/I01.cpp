// Grid iterators: the walk over an N-dimensional grid visits the points in array order, and jumps agree with steps.
#include "w.h"
#include <geomc/shape/Rect.h>
#include <geomc/shape/GridIterator.h>
typedef std::ptrdiff_t Z;
#define FD ARRAYORDER_FIRST_DIM_CONSECUTIVE
#define LD ARRAYORDER_LAST_DIM_CONSECUTIVE
// D lists the extents as decimal digits, first dimension first
template <int N, ArrayOrder O> struct Grid { Z d[N]; constexpr Grid(int D) : d{} { for (int i = N-1; i >= 0; --i) { d[i] = D % 10; D /= 10; } }
  constexpr Z vol() const { Z v = 1; for (int i = 0; i < N; ++i) v *= d[i]; return v; }
  // the point of ordinal k (any k; the slowest dimension is unbounded)
  constexpr void at(Z k, Z* p) const { for (int j = 0; j < N; ++j) { int i = O == FD ? j : N-1-j; if (j == N-1) { p[i] = k; } else { Z r = k % d[i]; if (r < 0) r += d[i]; p[i] = r; k = (k - r) / d[i]; } } } };
#define GT template <class T, int N, ArrayOrder O, int D>
#define GI GridIterator<T,N,O>
#define REG(lo) typename PointType<T,N>::point_t L(lo), H(lo); constexpr Grid<N,O> g(D); FOR(i,N) H[i] = L[i] + T(g.d[i] - 1); Rect<T,N> R(L, H); FOR(i,N) vg_assume(lo[i] > -1000000000 && lo[i] < 1000000000)
// a full forward walk, from begin() to end()
GT struct Walk { static void impl(const T* lo, T* o) { REG(lo); GI it(R); Z n = g.vol(); FOR(k,n) { FOR(i,N) o[k*N+i] = (*it)[i]; ++it; } o[n*N] = it == it.end(); o[n*N+1] = it.begin() == GI(R); FOR(i,N) o[n*N+2+i] = (*it.end())[i]; o[n*N+2+N] = it.end() - it.begin(); o[n*N+3+N] = it == it.begin(); }
  static void spec(const T* lo, T* o) { constexpr Grid<N,O> g(D); Z n = g.vol(); FOR(k,n+1) { Z p[N]; g.at(k, p); Z b = k == n ? k*N+2 : k*N; FOR(i,N) o[b+i] = lo[i] + T(p[i]); } o[n*N] = 1; o[n*N+1] = 1; o[n*N+2+N] = n; o[n*N+3+N] = 0; } };
// backward, from end()
GT struct Back { static void impl(const T* lo, T* o) { REG(lo); GI it = GI(R).end(); Z n = g.vol(); FOR(k,n) { --it; FOR(i,N) o[k*N+i] = (*it)[i]; } o[n*N] = it == it.begin(); }
  static void spec(const T* lo, T* o) { constexpr Grid<N,O> g(D); Z n = g.vol(); FOR(k,n) { Z p[N]; g.at(n-1-k, p); FOR(i,N) o[k*N+i] = lo[i] + T(p[i]); } o[n*N] = 1; } };
// jumps and differences between every pair of positions
GT struct Jump { static void impl(const T* lo, T* o) { REG(lo); Z n = g.vol(), x = 0; FOR(k,n) FOR(j,n+1) { Z p[N]; g.at(k, p); typename PointType<T,N>::point_t P; FOR(i,N) P[i] = L[i] + T(p[i]); GI it(R, P); GI jt = it; jt += (Z)j - (Z)k; FOR(i,N) o[x++] = (*jt)[i]; o[x++] = jt - it; o[x++] = it - jt; GI kt = it + ((Z)j - (Z)k); o[x++] = kt == jt; GI mt = it - ((Z)k - (Z)j); o[x++] = mt == jt; typename GI::point_t q = it[(Z)j - (Z)k]; FOR(i,N) o[x++] = q[i]; } }
  static void spec(const T* lo, T* o) { constexpr Grid<N,O> g(D); Z n = g.vol(), x = 0; FOR(k,n) FOR(j,n+1) { Z p[N]; g.at(j, p); FOR(i,N) o[x++] = lo[i] + T(p[i]); o[x++] = (Z)j - (Z)k; o[x++] = (Z)k - (Z)j; o[x++] = 1; o[x++] = 1; FOR(i,N) o[x++] = lo[i] + T(p[i]); } } };
// construction from an exclusive upper corner, assignment, post-increment
GT struct Make { static void impl(const T* lo, T* o) { REG(lo); typename PointType<T,N>::point_t E; FOR(i,N) E[i] = H[i] + T(1); GI it(L, E); FOR(i,N) { o[i] = (*it)[i]; o[N+i] = (*it.end())[i]; o[2*N+i] = it.region.lo[i]; o[3*N+i] = it.region.hi[i]; } GI jt(R); jt++; it = jt; FOR(i,N) o[4*N+i] = (*it)[i]; GI kt = it--; FOR(i,N) { o[5*N+i] = (*kt)[i]; o[6*N+i] = (*it)[i]; } o[7*N] = it < jt; o[7*N+1] = it == jt; o[7*N+2] = jt > it; o[7*N+3] = GI::order == O; }
  static void spec(const T* lo, T* o) { constexpr Grid<N,O> g(D); Z p[N], q[N]; g.at(1, p); g.at(g.vol(), q); FOR(i,N) { o[i] = lo[i]; o[N+i] = lo[i] + T(q[i]); o[2*N+i] = lo[i]; o[3*N+i] = lo[i] + T(g.d[i]-1); o[4*N+i] = o[5*N+i] = lo[i] + T(p[i]); o[6*N+i] = lo[i]; } o[7*N] = 1; o[7*N+1] = 0; o[7*N+2] = 1; o[7*N+3] = 1; } };
#define GS(S) template struct S<Z,2,FD,23>; template struct S<Z,2,LD,23>; template struct S<Z,2,FD,32>; template struct S<Z,2,LD,32>; template struct S<Z,3,FD,232>; template struct S<Z,3,LD,232>; template struct S<Z,2,LD,15>; template struct S<Z,2,FD,51>; template struct S<Z,3,LD,312>;
GS(Walk) GS(Back) GS(Jump) GS(Make)
template struct Walk<Z,4,FD,2132>; template struct Walk<Z,4,LD,2132>; template struct Back<Z,4,FD,2132>; template struct Back<Z,4,LD,2132>; template struct Walk<int,3,LD,232>; template struct Jump<int,2,FD,33>;
// one dimension
template <class T, ArrayOrder O> struct One { static void impl(T lo, T* o) { vg_assume(lo > -1000000000 && lo < 1000000000); GridIterator<T,1,O> it(Rect<T,1>(lo, lo + 4)); o[0] = *it; ++it; o[1] = *it; it += 3; o[2] = *it; --it; o[3] = *it; o[4] = *it.begin(); o[5] = *it.end(); o[6] = it.end() - it.begin(); GridIterator<T,1,O> e(lo, lo + 5); o[7] = *e; o[8] = *e.end(); o[9] = e.end() - e; e = it; o[10] = *e; o[11] = GridIterator<T,1,O>::order == O; o[12] = e == it; }
  static void spec(T lo, T* o) { o[0] = lo; o[1] = lo+1; o[2] = lo+4; o[3] = lo+3; o[4] = lo; o[5] = lo+5; o[6] = 5; o[7] = lo; o[8] = lo+5; o[9] = 5; o[10] = lo+3; o[11] = 1; o[12] = 1; } };
template struct One<Z,FD>; template struct One<Z,LD>; template struct One<int,FD>;
