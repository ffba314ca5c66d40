// Planes and half-spaces; shapes carried by an affine transform.
#include "af.h"
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Oriented.h>
#undef D3
#define D3(S) template struct S<2>; template struct S<3>;
template <index_t N> inline Vec<double,N> V(const double* a) { return ld<double,N>(a); }
template <index_t N> inline Plane<double,N> PL(const double* n, const double* q) { vg_assume(MAG2(n, N) > 0); return Plane<double,N>(V<N>(n), V<N>(q)); }
// signed distance of p from the plane of normal n through q
template <index_t N> inline double PD(const double* n, const double* q, const double* p) { double s = 0; FOR(i,N) s += n[i]*(p[i]-q[i]); return s/MAG(n, N); }
#define NQ const double* n, const double* q
template <index_t N> struct PlDist { static void impl(NQ, const double* p, double* o) { auto s = PL<N>(n, q); auto P = V<N>(p); o[0] = s.distance(P); o[1] = s.sdf(P); o[2] = s.contains(P); sv(o+3, s.project(P)); sv(o+3+N, s.origin()); sv(o+3+2*N, s.normal); } static void spec(NQ, const double* p, double* o) { double d = PD<N>(n, q, p), m = MAG(n, N), z[N]; FOR(i,N) z[i] = 0; double k = PD<N>(n, q, z); o[0] = o[1] = d; o[2] = d <= 0; FOR(i,N) { double u = n[i]/m; o[3+i] = p[i] - d*u; o[3+N+i] = -k*u; o[3+2*N+i] = u; } } };
D3(PlDist) template struct PlDist<4>;
template <index_t N> struct PlMake { static void impl(const double* n, const double* p, double* o) { vg_assume(MAG2(n, N) > 0); Plane<double,N> a, b(V<N>(n)); o[0] = a.distance(V<N>(p)); o[1] = b.distance(V<N>(p)); o[2] = a == a; o[3] = b == Plane<double,N>(V<N>(n), V<N>(p)); } static void spec(const double* n, const double* p, double* o) { double k = DOT(n, p, N); o[0] = p[0]; o[1] = k/MAG(n, N); o[2] = 1; o[3] = k == 0; } };
D3(PlMake) template struct PlMake<4>;
// through N points: all of them are at distance zero, and the normal is a unit vector
template <index_t N> struct PlSimplex { static void impl(const double* a, double* o) { Vec<double,N> v[N]; FOR(i,N) v[i] = V<N>(a+N*i); double nz = 0; if constexpr (N == 2) { nz = (a[2]-a[0])*(a[2]-a[0]) + (a[3]-a[1])*(a[3]-a[1]); } else { Vec<double,3> c = (v[1]-v[0]) ^ (v[2]-v[0]); nz = c.mag2(); } vg_assume(nz > 0); auto s = Plane<double,N>::from_simplex(v); FOR(i,N) o[i] = s.distance(v[i]); o[N] = s.normal.mag2(); } static void spec(const double* a, double* o) { FOR(i,N) o[i] = 0; o[N] = 1; } };
D3(PlSimplex)
template <index_t N> struct PlBasis { static void impl(const double* a, const double* p, double* o) { Vec<double,N> v[N-1]; FOR(i,N-1) v[i] = V<N>(a+N*i); double nz = 0; if constexpr (N == 2) nz = a[0]*a[0] + a[1]*a[1]; else nz = (v[0] ^ v[1]).mag2(); vg_assume(nz > 0); auto s = Plane<double,N>::from_basis(v, V<N>(p)); auto t = Plane<double,N>::from_basis(v); FOR(i,N-1) { o[i] = s.normal.dot(v[i]); o[N+i] = t.distance(v[i]); } o[N-1] = s.distance(V<N>(p)); o[2*N-1] = s.normal.mag2(); o[2*N] = t.normal.mag2(); } static void spec(const double* a, const double* p, double* o) { FOR(i,2*N-1) o[i] = 0; o[2*N-1] = o[2*N] = 1; } };
D3(PlBasis)
// shapes wholly inside the half-space; shapes the plane passes through
template <index_t N> struct PlSphere { static int impl(NQ, const double* c, double r) { vg_assume(r > 0); auto s = PL<N>(n, q); Sphere<double,N> b(V<N>(c), r); return s.contains(b) + 2*s.intersects(b); } static int spec(NQ, const double* c, double r) { double d = PD<N>(n, q, c); return (d + r <= 0 ? 1 : 0) + (d <= r && -d <= r ? 2 : 0); } };
D3(PlSphere)
template <index_t N> inline void BX(NQ, const double* l, const double* h, double& a, double& b) { double m = MAG(n, N); a = b = 0; FOR(i,N) { double x = n[i]*(l[i]-q[i]), y = n[i]*(h[i]-q[i]); a += n[i] < 0 ? y : x; b += n[i] < 0 ? x : y; } }
template <index_t N> struct PlBox { static int impl(NQ, const double* l, const double* h) { FOR(i,N) vg_assume(l[i] <= h[i]); auto s = PL<N>(n, q); double a, b; BX<N>(n, q, l, h, a, b); vg_assume(b != 0); Rect<double,N> r(V<N>(l), V<N>(h)); return s.contains(r) + 2*s.intersects(r); } static int spec(NQ, const double* l, const double* h) { double a, b; BX<N>(n, q, l, h, a, b); return (b <= 0 ? 1 : 0) + (a <= 0 && b >= 0 ? 2 : 0); } };
D3(PlBox)
template <index_t N, int K> struct PlHull { static bool impl(NQ, const double* a) { Vec<double,N> v[K]; FOR(i,K) v[i] = V<N>(a+N*i); return PL<N>(n, q).intersects(v, K); } static bool spec(NQ, const double* a) { bool p = true, m = true; FOR(i,K) { double d = PD<N>(n, q, a+N*i); p = p && d > 0; m = m && d < 0; } return !p && !m; } };
template struct PlHull<2,2>; template struct PlHull<2,3>; template struct PlHull<3,3>; template struct PlHull<3,4>;
// a transformed plane: normals go by the inverse transpose, and it passes through the transformed points
template <index_t N> inline void plx(const Plane<double,N>& s, double* o) { sv(o, s.normal); o[N] = s.d; }
#define MI const double* m, const double* i
template <index_t N> inline void PX(MI, const double* n, double d, double* o) { double w[N], z[N], y[N], k = 0; FOR(r,N) { w[r] = 0; FOR(c,N) w[r] += i[c*(N+1)+r]*n[c]; k += w[r]*w[r]; z[r] = -d*n[r]; } spec_apply<N>(m, z, y, 1); k = std::sqrt(k); o[N] = 0; FOR(r,N) { o[r] = w[r]/k; o[N] -= y[r]*o[r]; } }
template <index_t N> struct PlXf { static void impl(MI, const double* n, double d, double* o) { double w = 0, y = 0; FOR(c,N) { double a = 0, b = 0; FOR(r,N) { a += i[r*(N+1)+c]*n[r]; b += m[r*(N+1)+c]*n[r]; } w += a*a; y += b*b; } vg_assume(w > 0 && y > 0); auto x = AF<N>(m, i); Plane<double,N> s; s.normal = V<N>(n); s.d = d; plx(x * s, o); plx(s / x, o+N+1); auto t = s; plx(t *= x, o+2*N+2); t = s; plx(t /= x, o+3*N+3); t = s; t.apply(x); plx(t, o+4*N+4); t = s; t.apply_inverse(x); plx(t, o+5*N+5); }
  static void spec(MI, const double* n, double d, double* o) { FOR(k,3) { PX<N>(m, i, n, d, o + 2*k*(N+1)); PX<N>(i, m, n, d, o + (2*k+1)*(N+1)); } } };
D3(PlXf)
// with the true inverse, points keep their side and stay on the plane
struct PlXf2 { static void impl(const double* m, NQ, const double* p, double* o) { double D = m[0]*m[4] - m[1]*m[3]; vg_assume(D != 0); vg_assume(MAG2(n, 2) > 0); double i[6] = { m[4]/D, -m[1]/D, (m[1]*m[5]-m[4]*m[2])/D, -m[3]/D, m[0]/D, (m[3]*m[2]-m[0]*m[5])/D }; auto x = AF<2>(m, i); auto s = x * Plane<double,2>(V<2>(n), V<2>(q)); o[0] = s.distance(x * V<2>(q)); o[1] = s.contains(x * V<2>(p)); }
  static void spec(const double* m, NQ, const double* p, double* o) { o[0] = 0; o[1] = n[0]*(p[0]-q[0]) + n[1]*(p[1]-q[1]) <= 0; } };
void plxf2_(const double* m, NQ, const double* p, double* o) { PlXf2::impl(m, n, q, p, o); PlXf2::spec(m, n, q, p, o); }
// ---- oriented shapes: everything is the body shape seen through the transform
template <index_t N> struct OrSph { static void impl(MI, const double* c, double r, const double* p, double* o) { vg_assume(r > 0); auto x = AF<N>(m, i); auto s = x * Sphere<double,N>(V<N>(c), r); o[0] = s.contains(V<N>(p)); FOR(k,N) { double e = 0; FOR(j,N) e += m[k*(N+1)+j]*m[k*(N+1)+j]; vg_assume(e > 0); } auto b = s.bounds(); sv(o+1, b.lo); sv(o+1+N, b.hi); auto w = s.oriented_bounds(); sv(o+1+2*N, w.shape.lo); sv(o+1+3*N, w.shape.hi); svx<N>(o+1+4*N, w.xf); }
  static void spec(MI, const double* c, double r, const double* p, double* o) { double b[N]; spec_apply<N>(i, p, b, 1); double d = 0; FOR(k,N) d += (b[k]-c[k])*(b[k]-c[k]); o[0] = d <= r*r; spec_apply<N>(m, c, b, 1); FOR(k,N) { double e = 0; FOR(j,N) e += m[k*(N+1)+j]*m[k*(N+1)+j]; e = std::sqrt(e); o[1+k] = b[k] - r*e; o[1+N+k] = b[k] + r*e; o[1+2*N+k] = c[k]-r; o[1+3*N+k] = c[k]+r; } hom<N>(m, o+1+4*N); hom<N>(i, o+1+4*N+(N+1)*(N+1)); } };
D3(OrSph)
template <index_t N> struct OrSup { static void impl(MI, const double* c, double r, const double* d, double* o) { vg_assume(r > 0); double w = 0; FOR(k,N) { double b = 0; FOR(j,N) b += m[j*(N+1)+k]*d[j]; w += b*b; } vg_assume(w > 0); auto p = (AF<N>(m, i) * Sphere<double,N>(V<N>(c), r)).convex_support(V<N>(d)); o[0] = 0; FOR(k,N) o[0] += p[k]*d[k]; } static void spec(MI, const double* c, double r, const double* d, double* o) { double w = 0, b[N]; FOR(k,N) { double b = 0; FOR(j,N) b += m[j*(N+1)+k]*d[j]; w += b*b; } spec_apply<N>(m, c, b, 1); o[0] = DOT(b, d, N) + r*std::sqrt(w); } };
D3(OrSup)
// the body-space ray parameter is the world-space one
template <index_t N> struct OrRay { static void impl(MI, const double* l, const double* p, const double* d, double* o) { Ray<double,N> ray(V<N>(p), V<N>(d)); Rect<double,N> b(V<N>(l), V<N>(l+N)); auto R = (AF<N>(m, i) * b).intersect(ray); o[0] = R.lo; o[1] = R.hi; double r = l[0]; auto S = (AF<N>(m, i) * Sphere<double,N>(V<N>(l+N), r)).intersect(ray); o[2] = S.lo; o[3] = S.hi; }
  static void spec(MI, const double* l, const double* p, const double* d, double* o) { double P[N], E[N]; spec_apply<N>(i, p, P, 1); spec_apply<N>(i, d, E, 0); Ray<double,N> ray(V<N>(P), V<N>(E)); auto R = Rect<double,N>(V<N>(l), V<N>(l+N)).intersect(ray); o[0] = R.lo; o[1] = R.hi; double r = l[0]; auto S = Sphere<double,N>(V<N>(l+N), r).intersect(ray); o[2] = S.lo; o[3] = S.hi; } };
template struct OrRay<2>;
#ifdef THOROUGH
template struct OrRay<3>;
#endif
// transforming a transformed shape composes the transforms; the body shape stays
template <index_t N> struct OrComp { static constexpr int K = 2*(N+1)*(N+1), H = K/2;
  template <class S> static void put(double* o, const S& s) { svx<N>(o, s.xf); sv(o+K, s.shape.center); o[K+N] = s.shape.r; }
  static void impl(const double* a, const double* ai, const double* b, const double* bi, const double* c, double r, double* o) { vg_assume(r > 0); auto A = AF<N>(a, ai), B = AF<N>(b, bi); Sphere<double,N> s(V<N>(c), r); auto t = B * s; put(o, A * t); put(o+100, t / A); auto u = t; u *= A; put(o+200, u); u = t; u /= A; put(o+300, u); put(o+400, t); put(o+500, s / B); Oriented<Sphere<double,N>> z(s); put(o+600, z); o[700] = t == B * s; o[701] = z == Oriented<Sphere<double,N>>(s); }
  static void spec(const double* a, const double* ai, const double* b, const double* bi, const double* c, double r, double* o) { FOR(k,7) { FOR(j,N) o[100*k+K+j] = c[j]; o[100*k+K+N] = r; double* q = o + 100*k; if (k == 0 || k == 2) { hmul<N>(a, b, q); hmul<N>(bi, ai, q+H); } else if (k == 1 || k == 3) { hmul<N>(ai, b, q); hmul<N>(bi, a, q+H); } else if (k == 4) { hom<N>(b, q); hom<N>(bi, q+H); } else if (k == 5) { hom<N>(bi, q); hom<N>(b, q+H); } else FOR(x,2) FOR(y,N+1) FOR(z,N+1) q[x*H + y*(N+1) + z] = y == z; } o[700] = o[701] = 1; } };
D3(OrComp)
// ---- oriented boxes
template <index_t N> inline Oriented<Rect<double,N>> OB(MI, const double* l) { FOR(k,N) vg_assume(l[k] <= l[N+k]); return AF<N>(m, i) * Rect<double,N>(V<N>(l), V<N>(l+N)); }
template <index_t N> struct ObBounds { static void impl(MI, const double* l, double* o) { auto b = OB<N>(m, i, l).bounds(); sv(o, b.lo); sv(o+N, b.hi); } static void spec(MI, const double* l, double* o) { FOR(k,N) { double a = m[k*(N+1)+N], b = a; FOR(j,N) { double x = m[k*(N+1)+j]; a += x < 0 ? x*l[N+j] : x*l[j]; b += x < 0 ? x*l[j] : x*l[N+j]; } o[k] = a; o[N+k] = b; } } };
D3(ObBounds)
template <index_t N> struct ObSup { static double impl(MI, const double* l, const double* d) { auto p = OB<N>(m, i, l).convex_support(V<N>(d)); double s = 0; FOR(k,N) s += p[k]*d[k]; return s; } static double spec(MI, const double* l, const double* d) { double s = 0; FOR(k,N) { double b = 0; FOR(j,N) b += m[j*(N+1)+k]*d[j]; s += m[k*(N+1)+N]*d[k] + (b < 0 ? b*l[k] : b*l[N+k]); } return s; } };
D3(ObSup)
template <index_t N> struct ObIn { static bool impl(MI, const double* l, const double* p) { return OB<N>(m, i, l).contains(V<N>(p)); } static bool spec(MI, const double* l, const double* p) { double b[N]; spec_apply<N>(i, p, b, 1); FOR(k,N) if (b[k] < l[k] || b[k] > l[N+k]) return false; return true; } };
D3(ObIn)
template <index_t N> struct ObVol { static double impl(MI, const double* l) { if (N == 3) vg_assume(m[2] == 0 && m[4] == 0 && m[8] == 0 && m[9] == 0); return OB<N>(m, i, l).volume(); } static double spec(MI, const double* l) { double s = 1, a[N][N], D; FOR(r,N) { s *= l[N+r]-l[r]; FOR(c,N) a[r][c] = m[r*(N+1)+c]; } if constexpr (N == 2) D = a[0][0]*a[1][1]-a[0][1]*a[1][0]; else D = a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]); D *= s; return D < 0 ? -D : D; } };
D3(ObVol)
// overlap of an oriented box with an axis-aligned one: no separating axis among the face normals (and, in 3D, the
// crosses of edges).  2D: body unit square under any invertible map
struct ObRect2 { static bool impl(double a, double b, double c, double d, double x, double y, double w, double h) { double D = a*d - b*c; vg_assume(D > 0 && w >= 0 && h >= 0); double m[6] = { a, b, x, c, d, y }, i[6] = { d/D, -b/D, (b*y-d*x)/D, -c/D, a/D, (c*x-a*y)/D }; return (AF<2>(m, i) * Rect<double,2>(Vec<double,2>(0, 0), Vec<double,2>(1, 1))).intersects(Rect<double,2>(Vec<double,2>(0, 0), Vec<double,2>(w, h))); }
  static bool spec(double a, double b, double c, double d, double x, double y, double w, double h) { auto n = [](double v) { return v < 0 ? v : 0; }; auto p = [](double v) { return v > 0 ? v : 0; }; if (x + n(a) + n(b) > w || x + p(a) + p(b) < 0 || y + n(c) + n(d) > h || y + p(c) + p(d) < 0) return false;
    double D = a*d - b*c, u = b*y - d*x, v = c*x - a*y; if (u + n(d*w) + n(-b*h) > D || u + p(d*w) + p(-b*h) < 0 || v + n(-c*w) + n(a*h) > D || v + p(-c*w) + p(a*h) < 0) return false; return true; } };
bool obrect2_(double a, double b, double c, double d, double x, double y, double w, double h) { return ObRect2::impl(a, b, c, d, x, y, w, h) + ObRect2::spec(a, b, c, d, x, y, w, h); }
// 3D: a fixed generic rotation, any centre and half-extents
struct ObRect3 { static constexpr int M[9] = { 2, -1, 2, 2, 2, -1, -1, 2, 2 };
  static bool impl(const double* t, const double* e, const double* f) { double m[12], i[12]; FOR(r,3) { FOR(c,3) { m[r*4+c] = M[3*r+c]; i[r*4+c] = M[3*c+r]/9.; } m[r*4+3] = t[r]; i[r*4+3] = 0; FOR(c,3) i[r*4+3] -= M[3*c+r]*t[c]/9.; vg_assume(e[r] > 0 && f[r] > 0); } return (AF<3>(m, i) * Rect<double,3>(-V<3>(e), V<3>(e))).intersects(Rect<double,3>(-V<3>(f), V<3>(f))); }
  static bool sep(const double* t, const double* e, const double* f, const double* L) { double x = 0, y = 0; FOR(k,3) { x += t[k]*L[k]; y += f[k]*(L[k] < 0 ? -L[k] : L[k]); double b = 0; FOR(r,3) b += M[3*r+k]*L[r]; y += e[k]*(b < 0 ? -b : b); } return x > y || -x > y; }
  static bool spec(const double* t, const double* e, const double* f) { FOR(k,3) { double L[3] = { 0, 0, 0 }; L[k] = 1; if (sep(t, e, f, L)) return false; } FOR(k,3) { double L[3] = { (double) M[k], (double) M[3+k], (double) M[6+k] }; if (sep(t, e, f, L)) return false; } FOR(a,3) FOR(b,3) { double u[3] = { 0, 0, 0 }; u[a] = 1; double v[3] = { (double) M[b], (double) M[3+b], (double) M[6+b] }; double L[3] = { u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0] }; if (sep(t, e, f, L)) return false; } return true; } };
bool obrect3_(const double* t, const double* e, const double* f) { return ObRect3::impl(t, e, f) + ObRect3::spec(t, e, f); }
// two oriented boxes: one seen from the other
struct ObOb { static bool impl(const double* c, const double* e, const double* f, double x, double y) { double m[6] = { c[0], -c[1], x, c[1], c[0], y }; vg_assume(c[0]*c[0] + c[1]*c[1] == 1 && c[0] > 0 && c[1] > 0); FOR(k,2) vg_assume(e[k] > 0 && f[k] > 0); double i[6] = { c[0], c[1], -c[0]*x - c[1]*y, -c[1], c[0], c[1]*x - c[0]*y }; const auto A = AF<2>(m, i) * Rect<double,2>(-V<2>(e), V<2>(e)); const auto B = AffineTransform<double,2>() * Rect<double,2>(-V<2>(f), V<2>(f)); return A.intersects(B); }
  static bool spec(const double* c, const double* e, const double* f, double x, double y) { double u = c[0]*x + c[1]*y, v = c[0]*y - c[1]*x; return std::abs(x) <= f[0] + c[0]*e[0] + c[1]*e[1] && std::abs(y) <= f[1] + c[1]*e[0] + c[0]*e[1] && std::abs(u) <= e[0] + c[0]*f[0] + c[1]*f[1] && std::abs(v) <= e[1] + c[1]*f[0] + c[0]*f[1]; } };
bool obob_(const double* c, const double* e, const double* f, double x, double y) { return ObOb::impl(c, e, f, x, y) + ObOb::spec(c, e, f, x, y); }
// obligations that are not templates
VG_KEEP(PlXf2) VG_KEEP(ObRect2) VG_KEEP(ObRect3) VG_KEEP(ObOb)
