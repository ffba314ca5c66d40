// Uniform numbers: how the words of any generator become integers below a bound, integers in a range, and real numbers in [0,1].
#include "w.h"
#include <geomc/random/Random.h>
#include <geomc/random/Random.cpp>
#undef min
#undef max
#include <bit>
#include <climits>
typedef uint64_t U; typedef uint32_t W; typedef unsigned long long LL; typedef unsigned long UL;
struct Src : public Random { const W* w; index_t n = 0; explicit Src(const W* w) : w(w) {} ~Src() {} W rand32() override { return w[n++]; } void rseed(uint64_t) override {} };
// ---- whole-range integers: the words in order, the first being the most significant
template <int K> struct Words { static void impl(const W* w, U* o) { Src r(w); o[0] = r.rand<unsigned>(); o[1] = (W)r.rand<int>(); o[2] = r.rand<unsigned long>(); o[3] = r.rand<long>(); o[4] = r.rand<unsigned long long>(); o[5] = r.rand<long long>(); o[6] = r.n; }
  static void spec(const W* w, U* o) { o[0] = w[0]; o[1] = w[1]; FOR(i,4) o[2+i] = ((U)w[2+2*i] << 32) | w[3+2*i]; o[6] = 10; } };
template struct Words<0>;
// ---- integers below a bound: the 2^32 words fall in chunks of HI; word q*HI + v of a full chunk gives v, a word of the partial chunk is rejected
static constexpr U Full32(U hi) { return (U(1) << 32) / hi; }
#define CHUNK(q, C, v, HI) vg_assume(q < (C)); vg_assume(v < (HI));
template <W HI> struct Below32 { static void impl(W q, W v, U* o) { CHUNK(q, Full32(HI), v, HI) W w[2] = { (W)(q * HI + v), 0 }; Src r(w); o[0] = r.rand<unsigned>(HI); o[1] = r.n; } static void spec(W q, W v, U* o) { o[0] = v; o[1] = 1; } };
template <W HI> struct Reject32 { static constexpr U L = Full32(HI) * HI; static void impl(W p, W q, W v, U* o) { vg_assume(p < (U(1) << 32) - L); CHUNK(q, Full32(HI), v, HI) W w[3] = { (W)(L + p), (W)(q * HI + v), 0 }; Src r(w); o[0] = r.rand<unsigned>(HI); o[1] = r.n; } static void spec(W p, W q, W v, U* o) { o[0] = v; o[1] = 2; } };
#define B32(H) template struct Below32<H>; template struct Reject32<H>;
template struct Below32<1>; template struct Below32<2>; template struct Below32<256>; template struct Below32<0x80000000u>;
B32(3) B32(5) B32(6) B32(7) B32(10) B32(100) B32(1000) B32(65537) B32(0x7FFFFFFFu) B32(0x80000001u) B32(0xAAAAAAABu) B32(0xC0000000u) B32(0xC0000001u) B32(0xE0000000u) B32(0xFFFFFFFEu) B32(0xFFFFFFFFu)
template <U HI> struct Chunks { static constexpr U C = (U)(((unsigned __int128)1 << 64) / HI), L = C * HI, R = 0 - L; };
template <class T, U HI> struct Below64 { typedef Chunks<HI> K; static void impl(U q, U v, U* o) { CHUNK(q, K::C, v, HI) U x = q * HI + v; W w[3] = { (W)(x >> 32), (W)x, 0 }; Src r(w); o[0] = r.rand<T>((T)HI); o[1] = r.n; } static void spec(U q, U v, U* o) { o[0] = v; o[1] = 2; } };
template <class T, U HI> struct Reject64 { typedef Chunks<HI> K; static void impl(U p, U q, U v, U* o) { vg_assume(p < K::R); CHUNK(q, K::C, v, HI) U y = K::L + p, x = q * HI + v; W w[5] = { (W)(y >> 32), (W)y, (W)(x >> 32), (W)x, 0 }; Src r(w); o[0] = r.rand<T>((T)HI); o[1] = r.n; } static void spec(U p, U q, U v, U* o) { o[0] = v; o[1] = 4; } };
#define B64(H) template struct Below64<LL,H>; template struct Reject64<LL,H>; template struct Below64<UL,H>; template struct Reject64<UL,H>;
template struct Below64<LL,2>; template struct Below64<UL,2>; template struct Below64<LL,0x8000000000000000ull>; template struct Below64<UL,0x8000000000000000ull>;
B64(3) B64(7) B64(10) B64(0xFFFFFFFFull) B64(0x100000001ull) B64(0x7FFFFFFFFFFFFFFFull) B64(0x8000000000000001ull) B64(0xC000000000000000ull) B64(0xC000000000000001ull) B64(0xFFFFFFFFFFFFFFFFull)
// ---- signed bounds: 0 up to (down to) the bound; an empty range gives its only end
template <int HI> struct Signed32 { static constexpr W A = HI < 0 ? 0u - (W)HI : (W)HI; static void impl(W q, W v, W* o) { CHUNK(q, Full32(A), v, A) W w[2] = { (W)(q * A + v), 0 }; Src r(w); o[0] = r.rand<int>(HI); o[1] = r.n; } static void spec(W q, W v, W* o) { vg_assume(v < A); o[0] = HI < 0 ? 0 - v : v; o[1] = 1; } };
template struct Signed32<1>; template struct Signed32<5>; template struct Signed32<-1>; template struct Signed32<-5>; template struct Signed32<-100>; template struct Signed32<INT_MAX>; template struct Signed32<-INT_MAX>;
template <class T, long HI> struct Signed64 { static constexpr U A = HI < 0 ? 0u - (U)HI : (U)HI; typedef Chunks<A> K; static void impl(U q, U v, U* o) { CHUNK(q, K::C, v, A) U x = q * A + v; W w[3] = { (W)(x >> 32), (W)x, 0 }; Src r(w); o[0] = (U)r.rand<T>((T)HI); o[1] = r.n; } static void spec(U q, U v, U* o) { o[0] = HI < 0 ? 0 - v : v; o[1] = 2; } };
#define S64(H) template struct Signed64<long,H>; template struct Signed64<long long,H>;
S64(5) S64(-5) S64(LONG_MAX) S64(-LONG_MAX) S64(-1000000000000)
template <class T> struct Empty { static void impl(const W* w, T lo, T* o) { Src r(w); o[0] = r.rand<T>((T)0); o[1] = r.rand<T>(lo, lo); } static void spec(const W* w, T lo, T* o) { o[0] = 0; o[1] = lo; } };
template struct Empty<int>; template struct Empty<long long>;
template <class T> struct Zero { static void impl(const W* w, T* o) { Src r(w); o[0] = r.rand<T>((T)0); } static void spec(const W* w, T* o) { o[0] = 0; } };
template struct Zero<unsigned>; template struct Zero<LL>; template struct Zero<UL>; template struct Zero<long>;
// ---- integers from lo up to hi, whichever is named first
template <int LO, int HI> struct Range32 { static constexpr W A = (W)HI - (W)LO; static void impl(W q, W v, int* o) { CHUNK(q, Full32(A), v, A) W w[2] = { (W)(q * A + v), 0 }; { Src r(w); o[0] = r.rand<int>(LO, HI); o[1] = r.n; } { Src r(w); o[2] = r.rand<int>(HI, LO); o[3] = r.n; } } static void spec(W q, W v, int* o) { vg_assume(v < A); o[0] = o[2] = (int)((W)LO + v); o[1] = o[3] = 1; } };
template struct Range32<0,6>; template struct Range32<-3,4>; template struct Range32<-10,-7>; template struct Range32<0,INT_MAX>; template struct Range32<-1,INT_MAX>; template struct Range32<INT_MIN,INT_MAX>; template struct Range32<INT_MIN,0>; template struct Range32<-2000000000,2000000000>;
template <long long LO, long long HI> struct Range64 { static constexpr U A = (U)HI - (U)LO; typedef Chunks<A> K; static void impl(U q, U v, long long* o) { CHUNK(q, K::C, v, A) U x = q * A + v; W w[3] = { (W)(x >> 32), (W)x, 0 }; { Src r(w); o[0] = r.rand<long long>(LO, HI); o[1] = r.n; } { Src r(w); o[2] = r.rand<long long>(HI, LO); o[3] = r.n; } } static void spec(U q, U v, long long* o) { vg_assume(v < A); o[0] = o[2] = (long long)((U)LO + v); o[1] = o[3] = 2; } };
template struct Range64<0,6>; template struct Range64<-3,4>; template struct Range64<-2,LLONG_MAX>; template struct Range64<LLONG_MIN,LLONG_MAX>; template struct Range64<-6000000000000000000,6000000000000000000>;
// ---- real numbers: coin flips choose the binade (each half as likely as the one above), the high bits of fresh words the mantissa; at a binade's lower end, half of the chances go to the end above
template <int K> struct Flips { static index_t pool(const W* w, W* x) { const index_t n = (K + 1) / 32 + 1; FOR(i,n) { x[i] = w[i]; } FOR(i,n) { if (32 * i + 32 <= K) x[i] = 0; else if (32 * i <= K) x[i] = (w[i] & ~(((W)1 << (K - 32*i)) - 1)) | ((W)1 << (K - 32*i)); } return K / 32 + 1; }
  static bool after(const W* x, W next) { return (K + 1) % 32 ? (x[(K+1) / 32] >> ((K+1) % 32)) & 1 : next & 1; } };
template <int K> struct Double { static index_t prep(const W* w, W* x) { index_t n = Flips<K>::pool(w, x); x[n] = w[40]; x[n+1] = w[41]; x[n+2] = w[42]; return n; }
  static void impl(const W* w, U* o) { W x[40]; prep(w, x); Src r(x); o[0] = std::bit_cast<U>(r.rand<double>()); }
  static void spec(const W* w, U* o) { W x[40]; index_t n = prep(w, x); U m = (((U)w[40] << 32) | w[41]) >> 12; U e = 1022 - K; if (m == 0 && Flips<K>::after(x, w[42])) e++; o[0] = (e << 52) | m; } };
template struct Double<0>; template struct Double<1>; template struct Double<2>; template struct Double<17>; template struct Double<30>; template struct Double<31>; template struct Double<32>; template struct Double<63>; template struct Double<100>; template struct Double<1021>;
template <int K> struct Float { static index_t prep(const W* w, W* x) { index_t n = Flips<K>::pool(w, x); x[n] = w[40]; x[n+1] = w[42]; return n; }
  static void impl(const W* w, W* o) { W x[40]; prep(w, x); Src r(x); o[0] = std::bit_cast<W>(r.rand<float>()); }
  static void spec(const W* w, W* o) { W x[40]; index_t n = prep(w, x); W m = w[40] >> 9; W e = 126 - K; if (m == 0 && Flips<K>::after(x, w[42])) e++; o[0] = (e << 23) | m; } };
template struct Float<0>; template struct Float<1>; template struct Float<2>; template struct Float<17>; template struct Float<30>; template struct Float<31>; template struct Float<32>; template struct Float<63>; template struct Float<125>;
// ---- scaled to a bound or a range
template <class T> struct Scaled { static void impl(const W* w, T hi, T lo, T* o) { W x[8]; FOR(i,8) { x[i] = w[i]; } x[0] |= 1; { Src r(x); o[0] = r.rand<T>(hi); } { Src r(x); o[1] = r.rand<T>(lo, hi); } }
  static void spec(const W* w, T hi, T lo, T* o) { W x[8]; FOR(i,8) { x[i] = w[i]; } x[0] |= 1; Src r(x); T u = r.rand<T>(); o[0] = u * hi; o[1] = lo + u * (hi - lo); } };
template struct Scaled<double>; template struct Scaled<float>;
