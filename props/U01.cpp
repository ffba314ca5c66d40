// Numeric helpers: modulus, rounding division, interpolation, quadratic roots, angles.
#include "vg.h"
#include <cmath>
#include <algorithm>
#include <optional>
#include <geomc/function/Utils.h>
using namespace geom;
#define LIM(x) vg_assume((x) >= -1000000000 && (x) <= 1000000000)
template <class I> struct CeilDiv { static I impl(I a, I b) { LIM(a); LIM(b); vg_assume(b != 0); return ceil_div(a, b); } static I spec(I a, I b) { return (I)-std::floor(-((double)a/(double)b)); } }; template struct CeilDiv<int>; template struct CeilDiv<long>;
template <class I> struct FloorDiv { static I impl(I a, I b) { LIM(a); LIM(b); vg_assume(b != 0); return floor_div(a, b); } static I spec(I a, I b) { return (I)std::floor((double)a/(double)b); } }; template struct FloorDiv<int>; template struct FloorDiv<long>;
template <class I> struct Snap { static I impl(I a, I b) { vg_assume(a >= -30000 && a <= 30000); vg_assume(b > 0 && b <= 30000); return snap(a, b); } static I spec(I a, I b) { return b * (I)-std::floor(-((double)a/(double)b)); } }; template struct Snap<int>; template struct Snap<long>;
template <class I> struct PosMod { static I impl(I a, I b) { LIM(a); vg_assume(b > 0 && b <= 1000000000); return positive_mod(a, b); } static I spec(I a, I b) { return a - b*(I)std::floor((double)a/(double)b); } }; template struct PosMod<int>; template struct PosMod<long>;
template <class T> struct FDiv { static void impl(T a, T b, T* o) { vg_assume(b != 0); o[0] = ceil_div(a, b); o[1] = floor_div(a, b); o[2] = snap(a, b); o[3] = positive_mod(a, b); } static void spec(T a, T b, T* o) { o[0] = -std::floor(-a/b); o[1] = std::floor(a/b); o[2] = -b*std::floor(-a/b); o[3] = a - b*std::floor(a/b); } }; template struct FDiv<double>; template struct FDiv<float>;
// powers of two: every value of an 8-bit type
template <int V> struct Pow2 { static int impl() { return is_power_of_two<int8_t>((int8_t)V) + 2*is_power_of_two<uint8_t>((uint8_t)V); } static int spec() { int n = 0; for (int i = 0; i < 8; ++i) n += (V >> i) & 1; return n == 1 ? (V < 128 ? 3 : 2) : 0; } };
template <int... V> struct Pow2All { static void impl(int* o) { int k = 0; ((o[k++] = is_power_of_two<int8_t>((int8_t)V) + 2*is_power_of_two<uint8_t>((uint8_t)V)), ...); }
  static void spec(int* o) { int k = 0; ((o[k++] = Pow2<V>::spec()), ...); } };
#define R8(x) x, x+1, x+2, x+3, x+4, x+5, x+6, x+7
#define R64(x) R8(x), R8(x+8), R8(x+16), R8(x+24), R8(x+32), R8(x+40), R8(x+48), R8(x+56)
template struct Pow2All<R64(0)>; template struct Pow2All<R64(64)>; template struct Pow2All<R64(128)>; template struct Pow2All<R64(192)>;
// wider types: powers of two and their neighbours
template <class I, int B> struct Pow2W { static void impl(int* o) { I v = (I)1 << B; o[0] = is_power_of_two<I>(v); o[1] = is_power_of_two<I>((I)(v + 1)); o[2] = is_power_of_two<I>((I)(v - 1)); o[3] = is_power_of_two<I>((I)(v | 1)); o[4] = is_power_of_two<I>((I)-v); } static void spec(int* o) { o[0] = 1; o[1] = o[2] = o[3] = o[4] = 0; } };
template struct Pow2W<int,4>; template struct Pow2W<int,17>; template struct Pow2W<int,30>; template struct Pow2W<long,33>; template struct Pow2W<long,62>;
// interpolation
struct Mix { static void impl(double t, double a, double b, double* o) { o[0] = mix(t, a, b); o[1] = mix(0.0, a, b); o[2] = mix(1.0, a, b); } static void spec(double t, double a, double b, double* o) { o[0] = (1-t)*a + t*b; o[1] = a; o[2] = b; } };
struct Clamp { static void impl(double v, double lo, double hi, double* o) { vg_assume(lo <= hi); o[0] = geom::clamp(v, lo, hi); } static void spec(double v, double lo, double hi, double* o) { o[0] = v < lo ? lo : v > hi ? hi : v; } };
struct ClampI { static int impl(int v, int lo, int hi) { vg_assume(lo <= hi); return geom::clamp(v, lo, hi); } static int spec(int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; } };
void mix_(double a, double b, double c, double* o, int i, int j, int k) { Mix::impl(a,b,c,o); Mix::spec(a,b,c,o); Clamp::impl(a,b,c,o); Clamp::spec(a,b,c,o); o[0] = ClampI::impl(i,j,k); o[0] = ClampI::spec(i,j,k); }
// multilinear: weighted sum of the corners, bit i of the corner index choosing axis i
template <int N> struct Lin { static double impl(const double* s, const double* p) { return interp_linear(s, p, N); } static double spec(const double* s, const double* p) { double r = 0; for (int k = 0; k < (1 << N); ++k) { double w = 1; for (int i = 0; i < N; ++i) w *= (k >> i) & 1 ? s[i] : 1 - s[i]; r += w * p[k]; } return r; } };
template struct Lin<1>; template struct Lin<2>; template struct Lin<3>; template struct Lin<4>; template struct Lin<5>; template struct Lin<6>;
// cubic: the cubic through p[1], p[2] with the central differences as slopes there
struct Cub { static void impl(double s, const double* p, double* o) { o[0] = interp_cubic(s, p); o[1] = interp_cubic(0.0, p); o[2] = interp_cubic(1.0, p); o[3] = vg_diff(interp_cubic(s, p), s); }
  static double f(double s, const double* p) { double h00 = 2*s*s*s - 3*s*s + 1, h10 = s*s*s - 2*s*s + s, h01 = -2*s*s*s + 3*s*s, h11 = s*s*s - s*s; return h00*p[1] + h10*(p[2]-p[0])/2 + h01*p[2] + h11*(p[3]-p[1])/2; }
  static void spec(double s, const double* p, double* o) { o[0] = f(s, p); o[1] = p[1]; o[2] = p[2]; o[3] = (6*s*s-6*s)*p[1] + (3*s*s-4*s+1)*(p[2]-p[0])/2 + (6*s-6*s*s)*p[2] + (3*s*s-2*s)*(p[3]-p[1])/2; } };
void cub_(double s, const double* p, double* o) { Cub::impl(s,p,o); Cub::spec(s,p,o); }
inline double cubw(int j, double s) { double p[4] = {0,0,0,0}; p[j] = 1; return Cub::f(s, p); }
template <int N> struct CubN { static double impl(const double* s, const double* p) { return interp_cubic(s, p, N); } static double spec(const double* s, const double* p) { double r = 0; for (int k = 0; k < (1 << 2*N); ++k) { double w = 1; for (int i = 0; i < N; ++i) w *= cubw((k >> 2*i) & 3, s[i]); r += w * p[k]; } return r; } };
template struct CubN<1>; template struct CubN<2>; template struct CubN<3>; template struct CubN<4>;
// quadratic: both roots satisfy the equation and are the right pair (sum and product); no answer otherwise
struct Quad { static void impl(double a, double b, double c, double* o) { vg_assume(a != 0); double r[2] = {o[6], o[7]}; bool ok = quadratic_solve(r, a, b, c); o[0] = ok; o[1] = ok ? a*r[0]*r[0] + b*r[0] + c : 0; o[2] = ok ? a*r[1]*r[1] + b*r[1] + c : 0; o[3] = ok ? a*(r[0] + r[1]) : 0; o[4] = ok ? a*r[0]*r[1] : 0; o[5] = ok ? 0 : r[0] - o[6]; o[8] = ok ? 0 : r[1] - o[7]; }
  static void spec(double a, double b, double c, double* o) { bool ok = b*b - 4*a*c >= 0; o[0] = ok; o[1] = o[2] = 0; o[3] = ok ? -b : 0; o[4] = ok ? c : 0; o[5] = o[8] = 0; } };
struct QuadLin { static void impl(double b, double c, double* o) { double r[2] = {0, 0}; o[0] = quadratic_solve(r, 0.0, b, c); o[1] = r[0]; o[2] = r[1]; } static void spec(double b, double c, double* o) { o[0] = b != 0; o[1] = o[2] = b != 0 ? -c/b : 0; } };
// angles: the difference of two angles, brought to [-pi, pi] by whole turns
struct Ang { static void impl(double a, double b, double* o) { double d = angle_to(a, b); o[0] = std::cos(d); o[1] = std::sin(d); o[2] = d >= -vg_pi() && d <= vg_pi(); } static void spec(double a, double b, double* o) { o[0] = std::cos(b - a); o[1] = std::sin(b - a); o[2] = 1; } };
struct Deg { static void impl(double a, double* o) { o[0] = radians(a); o[1] = degrees(a); o[2] = degrees(radians(a)); } static void spec(double a, double* o) { o[0] = a*vg_pi()/180; o[1] = a*180/vg_pi(); o[2] = a; } };
void q_(double a, double b, double c, double* o) { Quad::impl(a,b,c,o); Quad::spec(a,b,c,o); QuadLin::impl(a,b,o); QuadLin::spec(a,b,o); Ang::impl(a,b,o); Ang::spec(a,b,o); Deg::impl(a,o); Deg::spec(a,o); }
// obligations that are not templates
VG_KEEP(Mix) VG_KEEP(Clamp) VG_KEEP(ClampI) VG_KEEP(Cub) VG_KEEP(Quad) VG_KEEP(QuadLin) VG_KEEP(Ang) VG_KEEP(Deg)
