// Pseudorandom generators: the bit streams are the published algorithms' and a seed determines all of what follows it.
#include "w.h"
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/Random.cpp>
#include <geomc/random/LCRand.cpp>
#include <geomc/random/MTRand.cpp>
#undef min
#undef max
typedef uint64_t U; typedef uint32_t W;
static inline U lc(U& s) { s = 6364136223846793005ULL * s + 1442695040888963407ULL; return s; }
static inline U sm(U& s) { s += 0x9E3779B97F4A7C15ULL; U x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
static inline U rot(U x, int k) { return (x << k) | (x >> (64 - k)); }
struct Xo { U s[4]; void seed(U x) { FOR(i,4) s[i] = sm(x); }
  U next() { U r = rot(s[0] + s[3], 23) + s[0], t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rot(s[3], 45); return r; } };
struct Mt { W b[624]; int i; void seed(U x) { FOR(k,624) b[k] = lc(x) >> 32; i = 0; }
  W next() { if (i == 624) { FOR(k,624) { W y = (b[k] & 0x80000000u) | (b[(k+1) % 624] & 0x7fffffffu); b[k] = b[(k+397) % 624] ^ (y >> 1) ^ ((y & 1) * 0x9908b0dfu); } i = 0; } return b[i++]; } };
template <int K> struct Linear { static void impl(U s, W* o, U* q) { LCRand r(s); FOR(i,K) { o[i] = r.rand32(); } FOR(i,K) q[i] = r.rand64(); r.rseed(s + 1); FOR(i,K) o[K+i] = r.rand32(); Random& b = r; b.rseed(s); FOR(i,K) o[2*K+i] = b.rand32(); }
  static void spec(U s, W* o, U* q) { U t = s; FOR(i,K) o[i] = lc(t) >> 32; FOR(i,K) q[i] = lc(t); t = s + 1; FOR(i,K) o[K+i] = lc(t) >> 32; t = s; FOR(i,K) o[2*K+i] = lc(t) >> 32; } };
template struct Linear<1>; template struct Linear<6>;
template <int K> struct SplitMix { static void impl(U s, U* o) { U t = s; FOR(i,4) o[i] = splitmix64(&t); o[4] = t; } static void spec(U s, U* o) { U t = s; FOR(i,4) o[i] = sm(t); o[4] = t; } };
template struct SplitMix<4>;
template <int K> struct Xoshiro { static void impl(U s, W* o, U* q) { XoshiroRand r(s); FOR(i,K) q[i] = r.rand64(); FOR(i,K) o[i] = r.rand32(); Random& b = r; b.rseed(s + 1); FOR(i,K) o[K+i] = b.rand32(); }
  static void spec(U s, W* o, U* q) { Xo r; r.seed(s); FOR(i,K) q[i] = r.next(); FOR(i,K) o[i] = r.next() >> 32; r.seed(s + 1); FOR(i,K) o[K+i] = r.next() >> 32; } };
template struct Xoshiro<1>; template struct Xoshiro<5>;
template <int K> struct Entropy { static void impl(const U* e, U* o) { XoshiroRand r(e); FOR(i,K) o[i] = r.rand64(); XoshiroRand q(U(7)); q.seed(e); FOR(i,K) o[K+i] = q.rand64(); U f[4]; FOR(i,4) f[i] = e[i]; q.seed(f); FOR(i,K) o[2*K+i] = q.rand64(); int n = 0; q.seed([&]() { return e[n++]; }); FOR(i,K) o[3*K+i] = q.rand64(); o[4*K] = n; }
  static void spec(const U* e, U* o) { FOR(j,3) { Xo r; FOR(i,4) r.s[i] = e[i]; FOR(i,K) o[j*K+i] = r.next(); } Xo r; FOR(i,4) { U x = e[i]; r.s[i] = sm(x); } FOR(i,K) o[3*K+i] = r.next(); o[4*K] = 4; } };
template struct Entropy<4>;
template <int K> struct Mersenne { static void impl(U s, W* o) { MTRand r(s); FOR(i,K) o[i] = r.rand32(); Random& b = r; b.rseed(s + 1); FOR(i,8) o[K+i] = b.rand32(); }
  static void spec(U s, W* o) { Mt r; r.seed(s); FOR(i,K) o[i] = r.next(); r.seed(s + 1); FOR(i,8) o[K+i] = r.next(); } };
template struct Mersenne<10>; template struct Mersenne<1256>;
// whatever was drawn before, a reseeded generator continues as a new one with that seed
#define SRC_LC LCRand
template <class G, int D> struct Reseed { static void draw(Random& r, double* o) { FOR(i,3) o[i] = r.rand<bool>(); o[3] = r.rand<unsigned>(); FOR(i,35) o[4+i] = r.rand<bool>(); o[39] = r.rand<int>(); o[40] = (double)r.rand<unsigned long long>(); }
  static void use(Random& r) { if (D == 1) r.rand<bool>(); if (D == 2) FOR(i,40) r.rand<bool>(); if (D == 3) r.rand32(); if (D == 4) { r.rand<bool>(); r.rand<long>(); } }
  static void impl(U s, double* o) { G r(s + 5); use(r); r.rseed(s); draw(r, o); } static void spec(U s, double* o) { G r(s); draw(r, o); } };
#define RS(G) template struct Reseed<G,0>; template struct Reseed<G,1>; template struct Reseed<G,2>; template struct Reseed<G,3>; template struct Reseed<G,4>;
RS(LCRand) RS(XoshiroRand) RS(MTRand)
template <int D> struct ReseedEntropy { typedef Reseed<XoshiroRand,D> R; static void impl(const U* e, double* o) { XoshiroRand r(U(3)); R::use(r); r.seed(e); R::draw(r, o); } static void spec(const U* e, double* o) { XoshiroRand r(e); R::draw(r, o); } };
template struct ReseedEntropy<1>; template struct ReseedEntropy<2>;
// consecutive booleans are the bits of consecutive words, none lost or repeated
template <class G> struct Bits { static void impl(U s, double* o) { G r(s); FOR(i,70) o[i] = r.template rand<bool>(); } static void spec(U s, double* o) { G r(s); W w = 0; FOR(i,70) { if (i % 32 == 0) w = r.rand32(); o[i] = (w >> (i % 32)) & 1; } } };
template struct Bits<LCRand>; template struct Bits<XoshiroRand>;
