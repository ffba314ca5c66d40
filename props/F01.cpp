// Orthogonal polynomials, their integrals; spline paths.
#include <geomc/function/SphericalHarmonics.h>
#include <geomc/function/Basis.h>
#include <geomc/function/Path.h>
#include "w.h"
// Legendre polynomials by their explicit sum, 2^-n sum_k (-1)^k C(n,k) C(2n-2k,n) x^(n-2k)
inline constexpr double binom(int n, int k) { double r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
inline double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
inline constexpr double lcoef(int n, int k) { double c = binom(n, k) * binom(2*n - 2*k, n); for (int i = 0; i < n; ++i) c /= 2; return k % 2 ? -c : c; }
template <int n> inline double leg(double x) { double r = 0; for (int k = 0; 2*k <= n; ++k) r += lcoef(n, k) * ipow(x, n - 2*k); return r; }
template <int n> inline double legint(double x) { double r = 0; for (int k = 0; 2*k <= n; ++k) { int m = n - 2*k + 1; r += lcoef(n, k) / m * (ipow(x, m) - (m % 2 ? -1 : 1)); } return r; }
// m-th derivative
template <int n> inline double legder(double x, int m) { double r = 0; for (int k = 0; 2*k <= n; ++k) { int p = n - 2*k; if (p < m) continue; double c = lcoef(n, k); for (int i = 0; i < m; ++i) c *= p - i; r += c * ipow(x, p - m); } return r; }
template <int n> struct Leg { static void impl(double x, double* o) { o[0] = legendre((index_t)n, x); o[1] = legendre((index_t)n, (index_t)0, x); o[2] = legendre_integral((index_t)n, x); o[3] = vg_diff(legendre_integral((index_t)n, x), x); o[4] = legendre((index_t)n, 1.0); o[5] = legendre_integral((index_t)n, -1.0); }
  static void spec(double x, double* o) { o[0] = o[1] = o[3] = leg<n>(x); o[2] = legint<n>(x); o[4] = 1; o[5] = 0; } };
template struct Leg<0>; template struct Leg<1>; template struct Leg<2>; template struct Leg<3>; template struct Leg<4>; template struct Leg<5>; template struct Leg<6>; template struct Leg<7>; template struct Leg<8>;
// associated Legendre functions, with the Condon-Shortley phase: (-1)^m (1-x^2)^(m/2) d^m/dx^m P_l
template <int l, int m> struct Assoc { static double impl(double x) { vg_assume(x > -1 && x < 1); return legendre((index_t)l, (index_t)m, x); } static double spec(double x) { double s = sqrt(1 - x*x), r = legder<l>(x, m); for (int i = 0; i < m; ++i) r *= -s; return r; } };
#define A1(l) template struct Assoc<l,0>; template struct Assoc<l,1>;
A1(1) A1(2) A1(3) A1(4) A1(5) A1(6) template struct Assoc<2,2>; template struct Assoc<3,2>; template struct Assoc<4,2>; template struct Assoc<5,2>; template struct Assoc<6,2>; template struct Assoc<3,3>; template struct Assoc<4,3>; template struct Assoc<5,3>; template struct Assoc<4,4>; template struct Assoc<5,4>; template struct Assoc<6,4>; template struct Assoc<5,5>; template struct Assoc<6,5>; template struct Assoc<6,6>;
// Chebyshev: T_n(cos t) = cos(n t), U_n(cos t) sin t = sin((n+1) t)
template <int n> struct Cheb { static void impl(double t, double* o) { double c = std::cos(t); o[0] = chebyshev((index_t)1, (index_t)n, c); o[1] = chebyshev((index_t)2, (index_t)n, c) * std::sin(t); } static void spec(double t, double* o) { o[0] = std::cos(n*t); o[1] = std::sin((n+1)*t); } };
template struct Cheb<0>; template struct Cheb<1>; template struct Cheb<2>; template struct Cheb<3>; template struct Cheb<4>; template struct Cheb<5>; template struct Cheb<6>; template struct Cheb<7>;
// paths: straight extrapolation beyond the ends; between knots, an eased blend of the two tangent lines
template <index_t N, int K> struct PathEval { static void impl(const double* a, const double* b, double t, double* o) { vg_assume(t >= -100 && t <= 100); Path<double,N> p; p.knots.reserve(K + 1); FOR(k,K) p.appendKnot(ld<double,N>(a + k*N), ld<double,N>(b + k*N)); sv(o, p.eval(t)); }
  static void spec(const double* a, const double* b, double t, double* o) { if (K == 0) { FOR(i,N) o[i] = 0; return; } if (t < 0) { FOR(i,N) o[i] = a[i] + b[i]*t; return; }
    for (int k = 0; k < K - 1; ++k) if (t < k + 1) { double s = t - k, e = 6*s*s*s*s*s - 15*s*s*s*s + 10*s*s*s; FOR(i,N) o[i] = (1-e)*(a[k*N+i] + b[k*N+i]*s) + e*(a[(k+1)*N+i] + b[(k+1)*N+i]*(s-1)); return; }
    FOR(i,N) o[i] = a[(K-1)*N+i] + b[(K-1)*N+i]*(t - (K-1)); } };
template struct PathEval<2,0>; template struct PathEval<2,1>; template struct PathEval<2,2>; template struct PathEval<3,3>; template struct PathEval<2,4>;
