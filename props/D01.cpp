// Dual numbers: the derivative part of every operation is the derivative of its value part.
#include <limits>
#include <complex>
#include "vg.h"
#include <geomc/function/Dual.h>
#include <geomc/function/Utils.h>
#include <cmath>
#include <algorithm>
using namespace geom;
typedef DiscontinuityPolicy DP;
template <DP P> using D_ = Dual<double,P>;
#define ARGS const double* a, double* o
#define X D_<P>(a[0], a[1])
#define Y D_<P>(a[2], a[3])
template <DP P> inline void put(double* o, const D_<P>& d) { o[0] = d.x; o[1] = d.dx; }
// one- and two-argument functions: value f, derivative by the chain rule, differentiated symbolically by the analysis
#define F1(S, PRE, IM, F) template <DP P> struct S { static void impl(ARGS) { double x = a[0]; vg_assume(PRE); put(o, D_<P>(IM)); } \
  static void spec(ARGS) { double x = a[0]; double f = F; o[0] = f; o[1] = vg_diff(f, a[0]) * a[1]; } }; INST(S)
#define F2(S, PRE, IM, F) template <DP P> struct S { static void impl(ARGS) { double x = a[0], y = a[2]; vg_assume(PRE); put(o, D_<P>(IM)); } \
  static void spec(ARGS) { double x = a[0], y = a[2]; double f = F; o[0] = f; o[1] = vg_diff(f, a[0]) * a[1] + vg_diff(f, a[2]) * a[3]; } }; INST(S)
#define INST(S) template struct S<DP::Right>; template struct S<DP::Left>; template struct S<DP::NaN>; template struct S<DP::Average>; template struct S<DP::Inf>;
F2(Add, true, X + Y, x + y)
F2(Sub, true, X - Y, x - y)
F2(Mul, true, X * Y, x * y)
F2(Div, y != 0, X / Y, x / y)
F1(Neg, true, -X, -x)
#define INPL(S, PRE, OP) template <DP P> struct S { static void impl(ARGS) { vg_assume(PRE); D_<P> d = X, e = Y; auto& r = (d OP e); put(o, d); o[2] = &r == &d; put(o+3, e); } \
  static void spec(ARGS) { double f = a[0]; f OP a[2]; o[0] = f; o[1] = vg_diff(f, a[0])*a[1] + vg_diff(f, a[2])*a[3]; o[2] = 1; o[3] = a[2]; o[4] = a[3]; } }; INST(S)
INPL(AddI, true, +=) INPL(SubI, true, -=) INPL(MulI, true, *=) INPL(DivI, a[2] != 0, /=)
// combined with itself, in place
#define SELF(S, PRE, OP) template <DP P> struct S { static void impl(ARGS) { vg_assume(PRE); D_<P> d = X; d OP d; put(o, d); } \
  static void spec(ARGS) { double f = a[0]; f OP a[0]; o[0] = f; o[1] = vg_diff(f, a[0])*a[1]; } }; INST(S)
SELF(AddS, true, +=) SELF(SubS, true, -=) SELF(MulS, true, *=) SELF(DivS, a[0] != 0, /=)
// with scalars
#define SC(S, PRE, IM, F) template <DP P> struct S { static void impl(const double* a, double s, double* o) { double x = a[0]; vg_assume(PRE); put(o, D_<P>(IM)); } \
  static void spec(const double* a, double s, double* o) { double x = a[0]; double f = F; o[0] = f; o[1] = vg_diff(f, a[0]) * a[1]; } }; INST(S)
SC(AddR, true, X + s, x + s) SC(AddL, true, s + X, s + x) SC(SubR, true, X - s, x - s) SC(SubL, true, s - X, s - x) SC(MulR, true, X * s, x * s) SC(MulL, true, s * X, s * x)
SC(DivR, s != 0, X / s, x / s) SC(DivL, x != 0, s / X, s / x)
#define SCI(S, PRE, OP) template <DP P> struct S { static void impl(const double* a, double s, double* o) { vg_assume(PRE); D_<P> d = X; auto& r = (d OP s); put(o, d); o[2] = &r == &d; } \
  static void spec(const double* a, double s, double* o) { double f = a[0]; f OP s; o[0] = f; o[1] = vg_diff(f, a[0]) * a[1]; o[2] = 1; } }; INST(S)
SCI(AddSI, true, +=) SCI(SubSI, true, -=) SCI(MulSI, true, *=) SCI(DivSI, s != 0, /=)
// integer scalars
SC(IntOps, true, 2 * X + 3 - X * 5 - (1 - X) / 4, 2*x + 3 - x*5 - (1 - x)/4)
// elementary functions
F1(Sin, true, std::sin(X), std::sin(x)) F1(Cos, true, std::cos(X), std::cos(x)) F1(Tan, std::cos(x) != 0, std::tan(X), std::tan(x))
F1(Asin, x > -1 && x < 1, std::asin(X), std::asin(x)) F1(Acos, x > -1 && x < 1, std::acos(X), std::acos(x)) F1(Atan, true, std::atan(X), std::atan(x))
F2(Atan2, x*x + y*y > 0, std::atan2(X, Y), std::atan2(x, y))
F1(Exp, true, std::exp(X), std::exp(x)) F1(Log, x > 0, std::log(X), std::log(x)) F1(Sqrt, x > 0, std::sqrt(X), std::sqrt(x))
F2(Pow, x > 0, std::pow(X, Y), std::pow(x, y))
SC(PowR, x > 0, std::pow(X, s), std::pow(x, s)) SC(PowL, s > 0, std::pow(s, X), std::pow(s, x))
F1(Pow2, true, std::pow(X, 2.0), x*x) F1(Pow3, true, std::pow(X, 3.0), x*x*x) F1(PowM1, x != 0, std::pow(X, -1.0), 1/x) F1(PowI, true, std::pow(X, 4), x*x*x*x)
template <DP P> struct PowB { static void impl(int n, ARGS) { vg_assume(n > 0); put(o, std::pow(n, X)); } static void spec(int n, ARGS) { double f = std::pow((double)n, a[0]); o[0] = f; o[1] = f * std::log((double)n) * a[1]; } }; INST(PowB)
#define Z D_<P>(a[4], a[5])
#define W D_<P>(a[6], a[7])
#define F4(S, IM, F) template <DP P> struct S { static void impl(ARGS) { put(o, D_<P>(IM)); } static void spec(ARGS) { double x = a[0], y = a[2], z = a[4], w = a[6]; double f = F; \
  o[0] = f; o[1] = vg_diff(f, a[0])*a[1] + vg_diff(f, a[2])*a[3] + vg_diff(f, a[4])*a[5] + vg_diff(f, a[6])*a[7]; } }; INST(S)
F4(Fma, std::fma(X, Y, Z), x*y + z) F4(MulAdd, multiply_add(X, Y, Z), x*y + z)
F4(DiffProd, diff_of_products(X, Y, Z, W), x*y - z*w) F4(SumProd, sum_of_products(X, Y, Z, W), x*y + z*w) F4(Mix, mix(X, Y, Z), (1-x)*y + x*z)
// a composite computation
F2(Comp, x > 0 && y > 0, std::exp(X*Y) / std::sqrt(X) + std::sin(Y/X) * (3 - X), std::exp(x*y) / std::sqrt(x) + std::sin(y/x) * (3 - x))
// functions with kinks: away from them, the derivative; at them, what the policy says (left and right derivatives l, r)
template <DP P> inline double pick(double l, double r) { return P == DP::Left ? l : P == DP::Right ? r : P == DP::Average ? (l + r)/2 : 0; }
#define INSTK(S) template struct S<DP::Right>; template struct S<DP::Left>; template struct S<DP::Average>;
template <DP P> struct Abs { static void impl(ARGS) { vg_assume(a[1] >= 0); put(o, std::abs(X)); } static void spec(ARGS) { o[0] = a[0] < 0 ? -a[0] : a[0]; o[1] = a[0] < 0 ? -a[1] : a[0] > 0 ? a[1] : pick<P>(-a[1], a[1]); } }; INSTK(Abs)
template <DP P> struct AbsOff { static void impl(ARGS) { vg_assume(a[0] != 0); put(o, std::abs(X)); } static void spec(ARGS) { o[0] = a[0] < 0 ? -a[0] : a[0]; o[1] = a[0] < 0 ? -a[1] : a[1]; } }; INST(AbsOff)
template <DP P> struct Max { static void impl(ARGS) { put(o, std::max(X, Y)); } static void spec(ARGS) { double p = a[1], q = a[3]; o[0] = a[0] > a[2] ? a[0] : a[2]; o[1] = a[0] > a[2] ? p : a[0] < a[2] ? q : pick<P>(p < q ? p : q, p < q ? q : p); } }; INSTK(Max)
template <DP P> struct Min { static void impl(ARGS) { put(o, std::min(X, Y)); } static void spec(ARGS) { double p = a[1], q = a[3]; o[0] = a[0] < a[2] ? a[0] : a[2]; o[1] = a[0] < a[2] ? p : a[0] > a[2] ? q : pick<P>(p < q ? q : p, p < q ? p : q); } }; INSTK(Min)
template <DP P> struct MaxOff { static void impl(ARGS) { vg_assume(a[0] != a[2]); put(o, std::max(X, Y)); put(o+2, std::min(X, Y)); } static void spec(ARGS) { int g = a[0] > a[2]; o[0] = a[g ? 0 : 2]; o[1] = a[g ? 1 : 3]; o[2] = a[g ? 2 : 0]; o[3] = a[g ? 3 : 1]; } }; INST(MaxOff)
template <DP P> struct Steps { static void impl(ARGS) { vg_assume(a[0] != std::floor(a[0])); put(o, std::floor(X)); put(o+2, std::ceil(X)); } static void spec(ARGS) { o[0] = std::floor(a[0]); o[1] = 0; o[2] = -std::floor(-a[0]); o[3] = 0; } }; INST(Steps)
template <DP P> struct StepsAt { static void impl(ARGS) { put(o, std::floor(X)); put(o+2, std::ceil(X)); } static void spec(ARGS) { o[0] = std::floor(a[0]); o[1] = 0; o[2] = -std::floor(-a[0]); o[3] = 0; } }; INSTK(StepsAt)
// comparison looks at the value only
#define CMP(S, OP) template <DP P> struct S { static bool impl(const double* a) { const D_<P> x = X, y = Y; return x OP y; } static bool spec(const double* a) { return a[0] OP a[2]; } }; INST(S)
CMP(Eq, ==) CMP(Ne, !=) CMP(Lt, <) CMP(Le, <=) CMP(Gt, >) CMP(Ge, >=)
// construction, conversion, assignment, stepping
template <DP P> struct Con { static void impl(ARGS) { D_<P> d; put(o, d); put(o+2, D_<P>(a[0])); D_<P> e(a[0], a[1]); D_<P> f(e); put(o+4, f); e = a[2]; put(o+6, e); o[8] = (double)f; o[9] = (float)f; Dual<float> g = D_<P>(a[0], a[1]); o[10] = g.x; o[11] = g.dx; f = Y; put(o+12, f); }
  static void spec(ARGS) { o[0] = o[1] = 0; o[2] = a[0]; o[3] = 0; o[4] = a[0]; o[5] = a[1]; o[6] = a[2]; o[7] = 0; o[8] = a[0]; o[9] = (float)a[0]; o[10] = (float)a[0]; o[11] = (float)a[1]; o[12] = a[2]; o[13] = a[3]; } }; INST(Con)
template <DP P> struct Pol { static void impl(ARGS) { put(o, D_<P>(Dual<double,DP::Left>(a[0], a[1]))); put(o+2, D_<P>(Dual<double,DP::Inf>(a[0], a[1]))); Dual<double,DP::Average> d = X; put(o+4, d); Dual<double,DP::Right> e = X; put(o+6, e); } static void spec(ARGS) { for (int i = 0; i < 4; ++i) { o[2*i] = a[0]; o[2*i+1] = a[1]; } } }; INST(Pol)
template <DP P> struct Step { static void impl(ARGS) { D_<P> d = X; put(o, d++); put(o+2, d); put(o+4, ++d); put(o+6, d--); put(o+8, d); put(o+10, --d); put(o+12, d); } static void spec(ARGS) { double v[7] = {a[0], a[0]+1, a[0]+2, a[0]+2, a[0]+1, a[0], a[0]}; for (int i = 0; i < 7; ++i) { o[2*i] = v[i]; o[2*i+1] = a[1]; } } }; INST(Step)
// the underlying products, for real and complex numbers
struct Prod { static void impl(const double* a, double* o) { o[0] = diff_of_products(a[0], a[1], a[2], a[3]); o[1] = sum_of_products(a[0], a[1], a[2], a[3]); o[2] = multiply_add(a[0], a[1], a[2]); }
  static void spec(const double* a, double* o) { o[0] = a[0]*a[1] - a[2]*a[3]; o[1] = a[0]*a[1] + a[2]*a[3]; o[2] = a[0]*a[1] + a[2]; } };
void prod_(const double* a, double* o) { Prod::impl(a, o); Prod::spec(a, o); }
template <class T> struct ProdI { static void impl(const T* a, T* o) { o[0] = diff_of_products(a[0], a[1], a[2], a[3]); o[1] = sum_of_products(a[0], a[1], a[2], a[3]); o[2] = multiply_add(a[0], a[1], a[2]); }
  static void spec(const T* a, T* o) { o[0] = a[0]*a[1] - a[2]*a[3]; o[1] = a[0]*a[1] + a[2]*a[3]; o[2] = a[0]*a[1] + a[2]; } }; template struct ProdI<int>; template struct ProdI<float>;
template <class T> struct ProdC { typedef std::complex<T> C; static void impl(const T* a, T* o) { C x(a[0],a[1]), y(a[2],a[3]), z(a[4],a[5]), w(a[6],a[7]); C d = diff_of_products(x,y,z,w), s = sum_of_products(x,y,z,w), m = multiply_add(x,y,z); o[0] = d.real(); o[1] = d.imag(); o[2] = s.real(); o[3] = s.imag(); o[4] = m.real(); o[5] = m.imag(); }
  static void spec(const T* a, T* o) { T pr = a[0]*a[2]-a[1]*a[3], pi = a[0]*a[3]+a[1]*a[2], qr = a[4]*a[6]-a[5]*a[7], qi = a[4]*a[7]+a[5]*a[6]; o[0] = pr-qr; o[1] = pi-qi; o[2] = pr+qr; o[3] = pi+qi; o[4] = pr+a[4]; o[5] = pi+a[5]; } }; template struct ProdC<double>; template struct ProdC<float>;
// obligations that are not templates
VG_KEEP(Prod)
