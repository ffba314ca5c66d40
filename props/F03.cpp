// Spherical and zonal harmonics.
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/function/Basis.h>
#include "w.h"
inline constexpr double binom(int n, int k) { double r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
inline double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
inline constexpr double lcoef(int n, int k) { double c = binom(n, k) * binom(2*n - 2*k, n); for (int i = 0; i < n; ++i) c /= 2; return k % 2 ? -c : c; }
inline double legder(int n, double x, int m) { double r = 0; for (int k = 0; 2*k <= n; ++k) { int p = n - 2*k; if (p < m) continue; double c = lcoef(n, k); for (int i = 0; i < m; ++i) c *= p - i; r += c * ipow(x, p - m); } return r; }
inline double fact(int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
// orthonormal real harmonics with the Condon-Shortley phase; x: cosine of the polar angle, s: its sine, c_m + i s_m = e^(i m azimuth)
inline double Y(int l, int m, double x, double s, double cm, double sm) { int a = m < 0 ? -m : m; double p = legder(l, x, a); FOR(i,a) p *= -s; double k = sqrt((2*l + 1) / (4 * vg_pi()) * fact(l - a) / fact(l + a)); return m == 0 ? k * p : sqrt(2.) * k * p * (m > 0 ? cm : sm); }
inline double YA(int l, int m, double alt, double azi) { int a = m < 0 ? -m : m; return Y(l, m, cos(alt), sin(alt), cos(a * azi), sin(a * azi)); }
// in a direction: azimuth terms by the angle-addition recurrence
inline double YD(int l, int m, const double* u) { int a = m < 0 ? -m : m; double c = 1, s = 0; FOR(i,a) { double t = c*u[0] - s*u[1]; s = s*u[0] + c*u[1]; c = t; }
  double p = legder(l, u[2], a); FOR(i,a) p = -p; double k = sqrt((2*l + 1) / (4 * vg_pi()) * fact(l - a) / fact(l + a)); return m == 0 ? k * p : sqrt(2.) * k * p * (m > 0 ? c : s); }
template <int l, int m> struct Coeff { static double impl(double alt, double azi) { vg_assume(std::sin(alt) >= 0); return spherical_harmonic_coeff<double>(l, m, std::cos(alt), azi); } static double spec(double alt, double azi) { return YA(l, m, alt, azi); } };
#define CO(l,m) template struct Coeff<l,m>; template struct Coeff<l,-m>;
template struct Coeff<0,0>; template struct Coeff<1,0>; template struct Coeff<2,0>; template struct Coeff<3,0>; template struct Coeff<4,0>; CO(1,1) CO(2,1) CO(2,2) CO(3,1) CO(3,2) CO(3,3) CO(4,1) CO(4,2) CO(4,3) CO(4,4)
template <index_t B, index_t N> inline SphericalHarmonics<double,N> mk(const double* c) { SphericalHarmonics<double,N> h(B); FOR(i,B*B) h.get()[i] = c[i]; return h; }
template <index_t B, index_t N> inline ZonalHarmonics<double,N> mz(const double* c) { ZonalHarmonics<double,N> h(B); FOR(i,B) h.get()[i] = c[i]; return h; }
template <int B, int N> struct Eval { static double impl(const double* c, double alt, double azi) { vg_assume(std::sin(alt) >= 0); return mk<B,N>(c).eval(alt, azi); } static double spec(const double* c, double alt, double azi) { double r = 0; for (int l = 0; l < B; ++l) for (int m = -l; m <= l; ++m) r += c[l*l + l + m] * YA(l, m, alt, azi); return r; } };
template struct Eval<1,1>; template struct Eval<2,2>; template struct Eval<3,3>; template struct Eval<4,4>; template struct Eval<5,5>; template struct Eval<1,0>; template struct Eval<3,0>;
template <int B, int N> struct EvalDir { static double impl(const double* c, const double* d) { vg_assume(d[0] != 0 || d[1] != 0); return mk<B,N>(c).eval(ld<double,3>(d)); } static double spec(const double* c, const double* d) { double n = sqrt(d[0]*d[0] + d[1]*d[1] + d[2]*d[2]), u[3] = { d[0]/n, d[1]/n, d[2]/n }, r = 0; for (int l = 0; l < B; ++l) for (int m = -l; m <= l; ++m) r += c[l*l + l + m] * YD(l, m, u); return r; } };
template struct EvalDir<1,1>; template struct EvalDir<2,2>; template struct EvalDir<3,3>; template struct EvalDir<2,0>;
template <int B, int N> struct Proj { static void impl(const double* c, double alt, double azi, double v, double* o) { vg_assume(std::sin(alt) >= 0); auto h = mk<B,N>(c); h.project(alt, azi, v); FOR(i,B*B) o[i] = h.coeffs[i]; o[B*B] = h.bands(); o[B*B+1] = h.size(); } static void spec(const double* c, double alt, double azi, double v, double* o) { for (int l = 0; l < B; ++l) for (int m = -l; m <= l; ++m) o[l*l + l + m] = c[l*l + l + m] + v * YA(l, m, alt, azi); o[B*B] = B; o[B*B+1] = B*B; } };
template struct Proj<1,1>; template struct Proj<3,3>; template struct Proj<4,4>; template struct Proj<5,5>; template struct Proj<3,0>;
template <int B, int N> struct ProjDir { static void impl(const double* c, const double* d, double v, double* o) { vg_assume(d[0] != 0 || d[1] != 0); auto h = mk<B,N>(c); h.project(ld<double,3>(d), v); auto b = SphericalHarmonics<double,N>::basis(ld<double,3>(d), B); FOR(i,B*B) { o[i] = h.coeffs[i]; o[B*B+i] = b.coeffs[i]; } } static void spec(const double* c, const double* d, double v, double* o) { double n = sqrt(d[0]*d[0] + d[1]*d[1] + d[2]*d[2]), u[3] = { d[0]/n, d[1]/n, d[2]/n }; for (int l = 0; l < B; ++l) for (int m = -l; m <= l; ++m) { double y = YD(l, m, u); o[l*l + l + m] = c[l*l + l + m] + v * y; o[B*B + l*l + l + m] = y; } } };
template struct ProjDir<1,1>; template struct ProjDir<2,2>; template struct ProjDir<3,3>; template struct ProjDir<2,0>;
// arithmetic on the coefficients
template <int B, int N> struct Arith { static void impl(const double* c, const double* d, double k, double* o) { vg_assume(k != 0); const int S = B*B; auto g = mk<B,N>(d); double* p = o; auto put = [&](const SphericalHarmonics<double,N>& h) { FOR(i,S) *p++ = h.coeffs[i]; };
    { auto h = mk<B,N>(c); h *= k; put(h); } { auto h = mk<B,N>(c); h /= k; put(h); } { auto h = mk<B,N>(c); h += k; put(h); } { auto h = mk<B,N>(c); h += g; put(h); } { auto h = mk<B,N>(c); put(h + g); put(h); } { auto h = mk<B,N>(c); -h; put(h); } { auto h = mk<B,N>(c); h.clear(); put(h); } { auto h = mk<B,N>(c); *p++ = h.dot(g); for (int l = 0; l < B; ++l) for (int m = -l; m <= l; ++m) *p++ = h.coeff(l, m); const auto& q = h; *p++ = q.coeff(B-1, 0); } }
  static void spec(const double* c, const double* d, double k, double* o) { const int S = B*B; double* p = o; FOR(i,S) *p++ = c[i]*k; FOR(i,S) *p++ = c[i]/k; FOR(i,S) *p++ = c[i] + (i ? 0 : k); FOR(i,S) *p++ = c[i] + d[i]; FOR(i,S) *p++ = c[i] + d[i]; FOR(i,S) *p++ = c[i]; FOR(i,S) *p++ = -c[i]; FOR(i,S) *p++ = 0; double s = 0; FOR(i,S) s += c[i]*d[i]; *p++ = s; FOR(i,S) *p++ = c[i]; *p++ = c[(B-1)*(B-1) + B-1]; } };
template struct Arith<1,1>; template struct Arith<2,2>; template struct Arith<3,3>; template struct Arith<2,0>;
struct SumSizes { static void impl(const double* c, const double* d, double* o) { auto a = mk<1,0>(c), b = mk<2,0>(d); auto s = a + b, t = b + a; o[0] = s.bands(); o[1] = t.bands(); FOR(i,4) { o[2+i] = s.coeffs[i]; o[6+i] = t.coeffs[i]; } o[10] = a.dot(b); o[11] = b.dot(a); } static void spec(const double* c, const double* d, double* o) { o[0] = o[1] = 2; FOR(i,4) o[2+i] = o[6+i] = d[i] + (i ? 0 : c[0]); o[10] = o[11] = c[0]*d[0]; } };
void sumsizes_(const double* c, const double* d, double* o) { SumSizes::impl(c, d, o); SumSizes::spec(c, d, o); }
// normalize(): the integral, sqrt(4 pi) times the first coefficient, becomes 1 and the shape is kept; an integral of 0 is left alone
template <int B, int N> struct Norm { static void impl(const double* c, double* o) { auto h = mk<B,N>(c); h.normalize(); FOR(i,B*B) o[i] = h.coeffs[i]; } static void spec(const double* c, double* o) { FOR(i,B*B) o[i] = c[0] != 0 ? c[i] / (c[0] * sqrt(4 * vg_pi())) : c[i]; } };
template struct Norm<1,1>; template struct Norm<2,2>; template struct Norm<3,3>; template struct Norm<2,0>;
// zonal functions: sum of z_l P_l
template <int B, int N> struct ZEval { static void impl(const double* z, double x, double* o) { auto h = mz<B,N>(z); o[0] = h.eval(x); o[1] = h.bands(); FOR(i,B) o[2+i] = h.coeff(i); } static void spec(const double* z, double x, double* o) { double r = 0; for (int l = 0; l < B; ++l) r += z[l] * legder(l, x, 0); o[0] = r; o[1] = B; FOR(i,B) o[2+i] = z[i]; } };
template struct ZEval<1,1>; template struct ZEval<2,2>; template struct ZEval<3,3>; template struct ZEval<4,4>; template struct ZEval<5,5>; template struct ZEval<6,6>; template struct ZEval<7,7>; template struct ZEval<1,0>; template struct ZEval<4,0>;
template <int B, int N> struct ZProj { static void impl(const double* z, double x, double v, double* o) { auto h = mz<B,N>(z); h.project(x, v); FOR(i,B) o[i] = h.coeff(i); h.clear(); o[B] = h.eval(x); } static void spec(const double* z, double x, double v, double* o) { for (int l = 0; l < B; ++l) o[l] = v * legder(l, x, 0); o[B] = 0; } };
template struct ZProj<1,1>; template struct ZProj<2,2>; template struct ZProj<3,3>; template struct ZProj<4,4>; template struct ZProj<6,6>; template struct ZProj<4,0>;
template <int A, int B> struct ZDot { static double impl(const double* z, const double* y) { return mz<A,A>(z).dot(mz<B,B>(y)); } static double spec(const double* z, const double* y) { double r = 0; FOR(i,(A < B ? A : B)) r += z[i]*y[i]; return r; } };
template struct ZDot<1,1>; template struct ZDot<3,3>; template struct ZDot<2,4>; template struct ZDot<4,2>;
// a zonal function as spherical harmonics: the same function of the angle from the axis; and back
template <int A, int B> struct FromZ { static void impl(const double* z, double alt, double azi, double* o) { vg_assume(std::sin(alt) >= 0); SphericalHarmonics<double,B> h(mz<A,A>(z)); o[0] = h.eval(alt, azi); o[1] = h.bands(); } static void spec(const double* z, double alt, double azi, double* o) { double r = 0; const int M = B && B < A ? B : A; for (int l = 0; l < M; ++l) r += z[l] * legder(l, cos(alt), 0); o[0] = r; o[1] = B ? B : A; } };
template struct FromZ<1,1>; template struct FromZ<3,3>; template struct FromZ<4,4>; template struct FromZ<4,2>; template struct FromZ<2,4>; template struct FromZ<3,0>;
template <int B> struct BackZ { static void impl(const double* z, double* o) { SphericalHarmonics<double,B> h(mz<B,B>(z)); ZonalHarmonics<double,B> b(h); FOR(i,B) o[i] = b.coeff(i); } static void spec(const double* z, double* o) { FOR(i,B) o[i] = z[i]; } };
template struct BackZ<1>; template struct BackZ<2>; template struct BackZ<4>;
// smoothing about the axis keeps the zonal part
template <int B, int N> struct ToZ { static double impl(const double* c, double alt) { return ZonalHarmonics<double,N>(mk<B,N>(c)).eval(std::cos(alt)); } static double spec(const double* c, double alt) { double r = 0; for (int l = 0; l < B; ++l) r += c[l*l + l] * YA(l, 0, alt, 0); return r; } };
template struct ToZ<1,1>; template struct ToZ<3,3>; template struct ToZ<5,5>; template struct ToZ<3,0>;
// re-oriented: the function of the angle from the new axis
template <int A, int B> struct ZAxis { static void impl(const double* z, const double* d, double* o) { vg_assume(d[0] != 0 || d[1] != 0); SphericalHarmonics<double,B> h(mz<A,A>(z), ld<double,3>(d)); FOR(i,h.size()) o[i] = h.coeffs[i]; } static void spec(const double* z, const double* d, double* o) { double n = sqrt(d[0]*d[0] + d[1]*d[1] + d[2]*d[2]), u[3] = { d[0]/n, d[1]/n, d[2]/n }; const int M = B ? B : A; for (int l = 0; l < M; ++l) for (int m = -l; m <= l; ++m) o[l*l + l + m] = l < A ? z[l] * sqrt(4*vg_pi() / (2*l + 1)) * YD(l, m, u) : 0; } };
template struct ZAxis<1,1>; template struct ZAxis<2,2>; template struct ZAxis<3,3>; template struct ZAxis<2,3>; template struct ZAxis<3,2>; template struct ZAxis<2,0>;
template <int A, int B> struct Conv { static void impl(const double* c, const double* z, double* o) { auto h = mk<B,B>(c); h.convolve(mz<A,A>(z)); FOR(i,B*B) o[i] = h.coeffs[i]; } static void spec(const double* c, const double* z, double* o) { for (int l = 0; l < B; ++l) for (int m = -l; m <= l; ++m) o[l*l + l + m] = l < A ? c[l*l + l + m] * z[l] : 0; } };
template struct Conv<3,3>; template struct Conv<2,3>; template struct Conv<4,2>;
template <int B> struct ZConv { static void impl(const double* z, const double* y, double* o) { auto h = mz<B,B>(z); h.convolve(mz<B,B>(y)); FOR(i,B) o[i] = h.coeff(i); } static void spec(const double* z, const double* y, double* o) { FOR(l,B) o[l] = z[l]*y[l] * sqrt(4*vg_pi() / (2*l + 1)); } };
template struct ZConv<1>; template struct ZConv<4>;
// generated kernels: projections (2l+1)/2 * integral of f P_l
template <int B> struct Spot { static void impl(const double* z, double x, double* o) { auto h = mz<B,B>(z); h.generate_spot(x); FOR(i,B) o[i] = h.coeff(i); } static void spec(const double* z, double x, double* o) { double y = x < -1 ? -1 : x > 1 ? 1 : x; for (int l = 0; l < B; ++l) { double r = 0; for (int k = 0; 2*k <= l; ++k) { int p = l - 2*k + 1; r += lcoef(l, k) / p * (1 - ipow(y, p)); } o[l] = (2*l + 1) / 2. * r; } } };
template struct Spot<1>; template struct Spot<2>; template struct Spot<3>; template struct Spot<6>;
template <int B, int ORD> struct Lamb { static void impl(const double* z, double* o) { auto h = mz<B,B>(z); h.generate_lambertian(ORD); FOR(i,B) o[i] = h.coeff(i); } static void spec(const double* z, double* o) { for (int l = 0; l < B; ++l) { double r = 0; for (int k = 0; 2*k <= l; ++k) r += lcoef(l, k) * (2520 / (l - 2*k + 2)); r /= 2520; o[l] = ORD >= 1 && l >= ORD ? 0 : (2*l + 1) / 2. * r; } } };
template struct Lamb<1,-1>; template struct Lamb<2,-1>; template struct Lamb<3,-1>; template struct Lamb<7,-1>; template struct Lamb<8,-1>; template struct Lamb<5,3>; template struct Lamb<5,1>; template struct Lamb<4,9>;
// a whole column of associated Legendre functions
template <int B, int m> struct Column { static void impl(const double* c, double x, double* o) { vg_assume(x > -1 && x < 1); auto h = mk<B,B>(c); legendre(&h, (index_t)m, x); FOR(i,B*B) o[i] = h.coeffs[i]; } static void spec(const double* c, double x, double* o) { double s = sqrt(1 - x*x); for (int l = 0; l < B; ++l) for (int k = -l; k <= l; ++k) { double p = legder(l, x, m); FOR(i,m) p *= -s; o[l*l + l + k] = k == m || k == -m ? p : c[l*l + l + k]; } } };
template struct Column<3,0>; template struct Column<3,1>; template struct Column<3,2>; template struct Column<4,1>; template struct Column<1,0>; template struct Column<2,0>;
// obligations that are not templates
VG_KEEP(SumSizes)
