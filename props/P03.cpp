// Random points: every sampler is a map from independent uniform numbers; its image is the region, and its Jacobian is constant.
#include "w.h"
#include <geomc/random/Random.h>
#include <geomc/random/RandomTools.h>
#include <geomc/random/SampleGeometry.h>
#undef min
#undef max
typedef std::size_t SZ;
// the uniform numbers drawn are the obligation's inputs, in order
struct Src : public Random { const double* w; index_t n = 0; const int* k = nullptr; index_t nk = 0; explicit Src(const double* w, const int* k = nullptr) : w(w), k(k) {} ~Src() {} uint32_t rand32() override { return 0; } void rseed(uint64_t) override {} double next() { return w[n++]; } };
namespace geom {
  Random::Random() {} Random::~Random() {}
  template <> double Random::rand<double>() { return static_cast<Src*>(this)->next(); }
  template <> double Random::rand<double>(double hi) { return hi * static_cast<Src*>(this)->next(); }
  template <> double Random::rand<double>(double lo, double hi) { return lo + (hi - lo) * static_cast<Src*>(this)->next(); }
  template <> unsigned long Random::rand<unsigned long>(unsigned long hi) { Src* s = static_cast<Src*>(this); return (unsigned long)s->k[s->nk++] % hi; }
  Random* getRandom() { return nullptr; }
}
#define UNIT(x) vg_assume((x) > 0 && (x) < 1);
#define LEM(x) vg_assume((x) > 0);   // follows from the other assumptions
#define R_ Src r(w); Sampler<double> S(&r);
template <int N> double cube(const double* w, double* p, index_t& n) { double m = 0; FOR(i,N) { p[i] = 2 * w[n++] - 1; m += p[i] * p[i]; } return m; }
// ---- balls and spheres: the first point of the cube to fall in the ball, or its direction
template <int N, int MISS> struct Ball { static void impl(const double* w, double rad, double* o) { index_t n = 0; double p[N]; FOR(j,MISS) vg_assume(cube<N>(w, p, n) > 1); vg_assume(cube<N>(w, p, n) <= 1); { R_ sv(o, S.solidball<N>()); o[N] = r.n; } { R_ sv(o + N + 1, S.solidball<N>(rad)); } { R_ Vec<double,N> u = S.unit<N>(), u2; { R_ u2 = S.unit<N>(rad); } double m = 0; FOR(i,N) { o[2*N+1+i] = u[i]; o[3*N+1+i] = u2[i]; } o[4*N+1] = r.n; } }
  static void spec(const double* w, double rad, double* o) { index_t n = 0; double p[N]; FOR(j,MISS) vg_assume(cube<N>(w, p, n) > 1); double m = cube<N>(w, p, n); vg_assume(m <= 1); FOR(i,N) o[i] = p[i]; o[N] = n; FOR(i,N) o[N+1+i] = rad * p[i]; FOR(i,N) { o[2*N+1+i] = p[i] / std::sqrt(m); o[3*N+1+i] = rad * p[i] / std::sqrt(m); } o[4*N+1] = n; } };
template struct Ball<2,0>; template struct Ball<2,1>; template struct Ball<3,0>; template struct Ball<3,2>; template struct Ball<4,0>;
template <int K> struct Disk { static void impl(const double* w, double rad, double* o) { double p[2]; index_t n = 0; vg_assume(cube<2>(w, p, n) <= 1); { R_ sv(o, S.disk()); } { R_ sv(o + 2, S.disk(rad)); } } static void spec(const double* w, double rad, double* o) { FOR(i,2) { o[i] = 2 * w[i] - 1; o[2+i] = rad * (2 * w[i] - 1); } } };
template struct Disk<0>;
// ---- the space between two balls: the volume within the radius is uniform between those of the bounds
template <int N> struct Shell { static double dir(const double* w, double* d) { double m = 0; FOR(i,N) { d[i] = 2 * w[i+1] - 1; m += d[i] * d[i]; } vg_assume(m <= 1); vg_assume(m > 0); return std::sqrt(m); }
  static void impl(const double* w, double a, double b, double* o) { double d[N]; double m = dir(w, d); vg_assume(a >= 0 && b > a); UNIT(w[0]) LEM(std::pow(a,N) + w[0] * (std::pow(b,N) - std::pow(a,N))) R_ Vec<double,N> p = S.shell<N>(a, b); o[0] = p.mag(); FOR(i,N) o[1+i] = p[i] * m / d[i]; o[N+1] = r.n; }
  static void spec(const double* w, double a, double b, double* o) { double d[N]; dir(w, d); UNIT(w[0]) LEM(std::pow(a,N) + w[0] * (std::pow(b,N) - std::pow(a,N))) vg_assume(a >= 0 && b > a); double f = std::pow(a / b, (double)N), R = b * std::pow(f + w[0] * (1 - f), 1.0 / N); FOR(i,N+1) o[i] = R; o[N+1] = N + 1; } };
template struct Shell<2>; template struct Shell<3>; template struct Shell<4>;
// ---- boxes
template <int N> struct Boxes { typedef Vec<double,N> V; static void impl(const double* w, const double* a, const double* b, double* o) { V l(a), h(b); { R_ sv(o, S.box<N>()); } { R_ sv(o + N, S.box<N>(l, h)); } { R_ sv(o + 2*N, S.box<N>(Rect<double,N>(l, h))); } if constexpr (N == 2) { R_ sv(o + 3*N, S.box(a[0], a[1], b[0], b[1])); } if constexpr (N == 3) { R_ sv(o + 3*N, S.box(a[0], a[1], a[2], b[0], b[1], b[2])); } }
  static void spec(const double* w, const double* a, const double* b, double* o) { FOR(i,N) FOR(j,N == 2 || N == 3 ? 4 : 3) o[j*N+i] = j ? a[i] + w[i] * (b[i] - a[i]) : w[i]; } };
template struct Boxes<2>; template struct Boxes<3>; template struct Boxes<4>;
// argument order of the scalar box: the compiler may evaluate the three draws in any order, so only the box is specified for them
// ---- directions within an angle of an axis: on the sphere, at the height the area is proportional to, and of constant area density
template <int K> struct Cap { static void pre(const double* w, double t) { UNIT(w[0]) UNIT(w[1]) vg_assume(t > 0 && t < vg_pi()); }
  static void impl(const double* w, double t, double* o) { pre(w, t); R_ Vec<double,3> p = S.cap(t); o[0] = p.mag2(); o[1] = p.z; double u[3], v[3]; FOR(i,3) { u[i] = vg_diff(p[i], w[0]); v[i] = vg_diff(p[i], w[1]); } double x = u[1]*v[2] - u[2]*v[1], y = u[2]*v[0] - u[0]*v[2], z = u[0]*v[1] - u[1]*v[0]; o[2] = x*x + y*y + z*z; o[3] = r.n; }
  static void spec(const double* w, double t, double* o) { pre(w, t); o[0] = 1; o[1] = std::cos(t) + w[0] * (1 - std::cos(t)); double A = 2 * vg_pi() * (1 - std::cos(t)); o[2] = A * A; o[3] = 2; } };
template struct Cap<0>;
// about an axis: the same cap, carried by a rotation that takes z to the axis
template <int D> struct CapDir { static Vec<double,3> dir(const double* d) { if (D == 0) return Vec<double,3>(d); if (D == 1) return Vec<double,3>(0, 0, d[2]); return Vec<double,3>(d[0], 0, d[2]); }
  static void pre(const double* w, const double* d, double t) { Vec<double,3> a = dir(d); vg_assume(a.mag2() > 0); UNIT(w[0]) UNIT(w[1]) vg_assume(t > 0 && t < vg_pi()); if (D != 1) vg_assume(a[0] != 0); else vg_assume(a[2] != 0); }
  static void impl(const double* w, const double* d, double t, double* o) { pre(w, d, t); Vec<double,3> a = dir(d); R_ Vec<double,3> p = S.cap(a, t); o[0] = p.mag2(); o[1] = p.dot(a) / a.mag(); }
  static void spec(const double* w, const double* d, double t, double* o) { pre(w, d, t); o[0] = 1; o[1] = std::cos(t) + w[0] * (1 - std::cos(t)); } };
template struct CapDir<0>; template struct CapDir<1>; template struct CapDir<2>;
template <int K> struct SolidCap { typedef CapDir<1> C; static void pre(const double* w, const double* d, double t, double a, double b) { UNIT(w[0]) UNIT(w[1]) UNIT(w[2]) vg_assume(d[2] > 0); vg_assume(a >= 0 && b > a); vg_assume(t > 0 && t < vg_pi()); LEM(a*a*a + w[0] * (b*b*b - a*a*a)) }
  static void impl(const double* w, const double* d, double t, double a, double b, double* o) { pre(w, d, t, a, b); R_ Vec<double,3> p = S.solidcap(C::dir(d), t, a, b); double m = p.mag(); o[0] = m * m * m; o[1] = p.z / m; o[2] = r.n; }
  static void spec(const double* w, const double* d, double t, double a, double b, double* o) { pre(w, d, t, a, b); o[0] = a*a*a + w[0] * (b*b*b - a*a*a); o[1] = std::cos(t) + w[1] * (1 - std::cos(t)); o[2] = 3; } };
template struct SolidCap<0>;
template <int D> struct ODisk { typedef CapDir<D> C; static void pre(const double* w, const double* d) { double p[2]; index_t n = 0; vg_assume(cube<2>(w, p, n) <= 1); Vec<double,3> a = C::dir(d); if (D != 1) vg_assume(a[0] != 0); else vg_assume(a[2] != 0); }
  static void impl(const double* w, const double* d, double rad, double* o) { pre(w, d); Vec<double,3> a = C::dir(d); R_ Vec<double,3> p = S.oriented_disk(a, rad); o[0] = p.mag2(); o[1] = p.dot(a); o[2] = r.n; }
  static void spec(const double* w, const double* d, double rad, double* o) { pre(w, d); double p[2]; index_t n = 0; o[0] = rad * rad * cube<2>(w, p, n); o[1] = 0; o[2] = 2; } };
template struct ODisk<0>; template struct ODisk<1>; template struct ODisk<2>;
// ---- plane arcs
template <int K> struct Arc { static void impl(const double* w, double a, double b, double* o) { R_ sv(o, S.arc(a, b)); } static void spec(const double* w, double a, double b, double* o) { double t = a + w[0] * (b - a); o[0] = std::cos(t); o[1] = std::sin(t); } };
template struct Arc<0>;
template <int K> struct SolidArc { static void pre(const double* w, double a, double b, double s, double t) { UNIT(w[0]) UNIT(w[1]) vg_assume(s >= 0 && t > s); vg_assume(b > a); }
  static void impl(const double* w, double a, double b, double s, double t, double* o) { pre(w, a, b, s, t); R_ Vec<double,2> p = S.solidarc(a, b, s, t); o[0] = p.mag2(); double j = vg_diff(p[0], w[0]) * vg_diff(p[1], w[1]) - vg_diff(p[0], w[1]) * vg_diff(p[1], w[0]); o[1] = j * j; double h = a + w[0] * (b - a); o[2] = p[0] * std::sin(h) - p[1] * std::cos(h); o[3] = p[0] * std::cos(h) + p[1] * std::sin(h); }
  static void spec(const double* w, double a, double b, double s, double t, double* o) { pre(w, a, b, s, t); o[0] = s*s + w[1] * (t*t - s*s); double A = (t*t - s*s) * (b - a) / 2; o[1] = A * A; o[2] = 0; o[3] = std::sqrt(o[0]); } };
template struct SolidArc<0>;
// ---- permutations: the n! sequences of choices give the n! orders, each once
template <int N, bool VEC> struct Permute { static constexpr int F = N == 1 ? 1 : N == 2 ? 2 : N == 3 ? 6 : N == 4 ? 24 : 120;
  static void impl(double* o) { FOR(c,F) o[c] = 0; for (int c = 0; c < F; ++c) { int k[N], q = c; FOR(i,N) { k[i] = q % (N - i); q /= (N - i); } Src r(nullptr, k); int x[N]; FOR(i,N) x[i] = i; if (VEC) { std::vector<int> v(x, x + N); permute(v, r); FOR(i,N) x[i] = v[i]; } else permute(x, N, r); int code = 0; FOR(i,N) { int s = 0; for (int j = i + 1; j < N; ++j) s += x[j] < x[i]; code = code * (N - i) + s; } o[code] += 1; bool ok = r.nk == N; FOR(v,N) { int s = 0; FOR(i,N) s += x[i] == v; ok = ok && s == 1; } o[F] = ok; if (!ok) o[F+1] = 1; } }
  static void spec(double* o) { FOR(c,F) o[c] = 1; o[F] = 1; } };
template struct Permute<1,false>; template struct Permute<2,false>; template struct Permute<3,false>; template struct Permute<4,false>; template struct Permute<3,true>;
// ---- shapes with standard generators: uniform, exponential and normal deviates are inputs
struct Gen { typedef uint64_t result_type; const double* w; index_t n = 0; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t operator()() { return 0; } };
namespace std {
  template <> template <> double uniform_real_distribution<double>::operator()<Gen>(Gen& g) { return a() + (b() - a()) * g.w[g.n++]; }
  template <> template <> double exponential_distribution<double>::operator()<Gen>(Gen& g) { return g.w[g.n++] / lambda(); }
  template <> template <> double normal_distribution<double>::operator()<Gen>(Gen& g) { return mean() + stddev() * g.w[g.n++]; }
}
template <int N> struct OnRect { static void impl(const double* w, const double* a, const double* b, double* o) { Gen g{w}; Rect<double,N> box{Vec<double,N>(a), Vec<double,N>(b)}; SampleShape<Rect<double,N>> s(box); sv(o, s(g)); } static void spec(const double* w, const double* a, const double* b, double* o) { FOR(i,N) { o[i] = a[i] + w[i] * (b[i] - a[i]); } } };
template struct OnRect<2>; template struct OnRect<3>;
template <int N> struct OnSphere { static void pre(const double* w) { double m = 0; FOR(i,N) { m += w[i] * w[i]; } vg_assume(m > 0); UNIT(w[N]) }
  static void impl(const double* w, const double* c, double R, double* o) { pre(w); vg_assume(R > 0); Gen g{w}; SampleShape<Sphere<double,N>> s(Sphere<double,N>(Vec<double,N>(c), R)); Vec<double,N> p = s(g) - Vec<double,N>(c); sv(o, p); o[N] = g.n; }
  static void spec(const double* w, const double* c, double R, double* o) { pre(w); vg_assume(R > 0); double m = 0; FOR(i,N) m += w[i] * w[i]; double k = R * std::pow(w[N], 1.0 / N) / std::sqrt(m); FOR(i,N) o[i] = k * w[i]; o[N] = N + 1; } };
template struct OnSphere<2>; template struct OnSphere<3>; template struct OnSphere<4>;
template <int N, int M> struct OnSimplex { static void pre(const double* w) { double t = 0; FOR(j,M) { vg_assume(w[j] > 0); t += w[j]; } vg_assume(t > 0); }
  static void impl(const double* w, const double* v, double* o) { pre(w); Vec<double,N> q[M]; FOR(j,M) q[j] = Vec<double,N>(v + j*N); Gen g{w}; SampleShape<Simplex<double,N>> s(Simplex<double,N>(q, M)); sv(o, s(g)); o[N] = g.n; }
  static void spec(const double* w, const double* v, double* o) { pre(w); double t = 0; FOR(j,M) t += w[j]; FOR(i,N) { double s = 0; FOR(j,M) s += w[j] / t * v[j*N+i]; o[i] = s; } o[N] = M; } };
template struct OnSimplex<2,3>; template struct OnSimplex<3,4>; template struct OnSimplex<3,3>; template struct OnSimplex<3,1>; template struct OnSimplex<2,2>;
