// SmallStorage: behaves as the array its operations describe, whether the items are inside the object or on the heap, and
// keeps every item alive exactly as long as it is contained.
#include "w.h"
#include "tr.h"
#include <geomc/SmallStorage.h>
// an array in a given state: room for CAP items asked for, S items a[0..S)
template <size_t N, int CAP, int S> struct St {
  typedef SmallStorage<Tr,N> D;
  static void fill(D& d, const double* a) { if (CAP) d.reserve(CAP); FOR(i,S) d.push_back(Tr(a[i])); }
  static Sq seq(const double* a) { Sq s; FOR(i,S) s.pb(a[i]); return s; } };
template <class D> void put(const D& d, double*& o) { *o++ = d.size(); FOR(i,d.size()) *o++ = d[i].get(); if (d.size() > d.capacity() || d.end() - d.begin() != (index_t)d.size() || d.data() != d.begin() || d.empty() != (d.size() == 0)) *o++ = -999; }
template <class D> D l2(double p, double q) { return D{Tr(p), Tr(q)}; }
template <class D> D l5(double p, double q, double r, double s, double t) { return D{Tr(p), Tr(q), Tr(r), Tr(s), Tr(t)}; }
#define STT template <size_t N, int CAP, int S>
#define DOP(S_, IM, SP) STT struct S_ { typedef SmallStorage<Tr,N> D; static void impl(const double* a, double x, double y, double* o) { D d; St<N,CAP,S>::fill(d, a); IM; } static void spec(const double* a, double x, double y, double* o) { Sq d = St<N,CAP,S>::seq(a); SP; } };
#define OPT(e) { auto r = e; *o++ = r.has_value(); if (r) *o++ = r->get(); }
#define SOPT(e) { *o++ = d.n > 0; if (d.n > 0) *o++ = e; }
DOP(State, put(d,o); *o++ = D::static_capacity(); *o++ = d.capacity() >= N && d.capacity() >= CAP, d.put(o); *o++ = N; *o++ = 1)
DOP(PushBack, Tr t(x); Tr& r = d.push_back(t); *o++ = r.get(); *o++ = t.get(); *o++ = &r == &d.back(); put(d,o); d.push_back(Tr(y)); put(d,o); *o++ = d.front().get(); *o++ = d.back().get(), d.pb(x); *o++ = x; *o++ = x; *o++ = 1; d.put(o); d.pb(y).put(o); *o++ = d.x[0]; *o++ = y)
DOP(Emplace, Tr& r = d.emplace_back(x); *o++ = r.get(); *o++ = &r == d.end() - 1; put(d,o); FOR(i,5) d.emplace_back(y + i); put(d,o); Tr t(x); d.emplace_back(std::move(t)); put(d,o); *o++ = t.get(), d.pb(x); *o++ = x; *o++ = 1; d.put(o); FOR(i,5) d.pb(y + i); d.put(o); d.pb(x).put(o); *o++ = -777)
DOP(PushOwn, if (S) FOR(i,4) { d.push_back(d[i % S]); d.emplace_back(d[S-1]); } put(d,o), if (S) FOR(i,4) d.pb(a[i % S]).pb(a[S-1]); d.put(o))
DOP(PopBack, OPT(d.pop_back()) put(d,o); OPT(d.pop_back()) put(d,o); d.push_back(Tr(x)); put(d,o); d.push_back(Tr(y)); put(d,o), SOPT(d.qb()) d.put(o); SOPT(d.qb()) d.put(o); d.pb(x).put(o); d.pb(y).put(o))
DOP(Drain, FOR(i,S+1) OPT(d.pop_back()) put(d,o), FOR(i,S+1) SOPT(d.qb()) d.put(o))
DOP(Index, const D& c = d; if (S) { d[0] = Tr(x); d.back() = Tr(y); *o++ = c.front().get(); *o++ = c.back().get(); *o++ = d.front().get(); put(d,o); int k = 0; for (Tr& t : d) t.v += k++; } for (const Tr& t : c) *o++ = t.get(); *o++ = c.empty(), if (S) { d.x[0] = x; d.x[S-1] = y; *o++ = d.x[0]; *o++ = d.x[S-1]; *o++ = d.x[0]; d.put(o); FOR(i,S) *o++ = d.x[i] + i; } *o++ = !S)
DOP(Clear, d.clear(); put(d,o); d.push_back(Tr(x)); put(d,o); d.clear(); d.clear(); put(d,o), d.n = 0; d.put(o); d.pb(x).put(o); d.n = 0; d.put(o))
DOP(Reserve, for (int k = 0; k <= 7; ++k) { d.reserve(k); *o++ = (int)d.capacity() >= k; put(d,o); } d.push_back(Tr(x)); put(d,o), for (int k = 0; k <= 7; ++k) { *o++ = 1; d.put(o); } d.pb(x).put(o))
DOP(Room, Tr* p = d.data(); while (d.size() < d.capacity()) d.push_back(Tr(x)); *o++ = p == d.data(), *o++ = 1)
DOP(Resize, d.resize(S+2); put(d,o); d.resize(S+4, x); put(d,o); if (S) { d.resize(S-1); put(d,o); d.resize(S, y); put(d,o); } d.resize(0); put(d,o); d.resize(0, x); put(d,o); d.resize(1, y); put(d,o), d.pb(-555).pb(-555).put(o); d.pb(x).pb(x).put(o); if (S) { d.n = S-1; d.put(o); d.pb(y).put(o); } d.n = 0; d.put(o); d.put(o); d.pb(y).put(o))
DOP(CopyCtor, D e(d); put(e,o); put(d,o); *o++ = e == d; e.push_back(Tr(x)); e.push_back(Tr(y)); put(e,o); put(d,o); d.pop_back(); d.push_back(Tr(x)); put(d,o); put(e,o); *o++ = e == d, Sq e = d; e.put(o); d.put(o); *o++ = 1; e.pb(x).pb(y).put(o); d.put(o); if (d.n) d.qb(); d.pb(x).put(o); e.put(o); *o++ = 0)
DOP(MoveCtor, D e(std::move(d)); put(e,o); put(d,o); e.push_back(Tr(x)); put(e,o); d.push_back(Tr(x)); d.push_back(Tr(y)); d.push_back(Tr(y)); d.push_back(Tr(x)); put(d,o); put(e,o), Sq e = d; e.put(o); d.n = 0; d.put(o); e.pb(x).put(o); d.pb(x).pb(y).pb(y).pb(x).put(o); e.put(o))
DOP(Self, D& e = d; d = e; put(d,o); d = std::move(e); put(d,o); d.push_back(Tr(x)); put(d,o); *o++ = d == e, d.put(o); d.put(o); d.pb(x).put(o); *o++ = 1)
DOP(FromArray, { Tr t[S+1]; FOR(i,S) t[i].v = a[i]; D e(t, S); put(e,o); *o++ = e == d; e.push_back(Tr(x)); put(e,o); FOR(i,S) *o++ = t[i].get(); D f(Tr(y), S); put(f,o); f.push_back(Tr(x)); put(f,o); D g((size_t)S); put(g,o); g.push_back(Tr(x)); put(g,o); }, d.put(o); *o++ = 1; d.pb(x).put(o); FOR(i,S) *o++ = a[i]; d.n = 0; FOR(i,S) d.pb(y); d.put(o); d.pb(x).put(o); d.n = 0; FOR(i,S) d.pb(-555); d.put(o); d.pb(x).put(o))
DOP(FromList, { D e = l2<D>(x, y); put(e,o); e.push_back(Tr(x)); put(e,o); D f = l5<D>(a[0], a[1], x, y, x); put(f,o); f.push_back(Tr(y)); put(f,o); e = f; put(e,o); e = d; put(e,o); D g{Tr(x)}; put(g,o); }, d.n = 0; d.pb(x).pb(y).put(o); d.pb(x).put(o); d.n = 0; d.pb(a[0]).pb(a[1]).pb(x).pb(y).pb(x).put(o); d.pb(y).put(o); d.put(o); d.n = 0; FOR(i,S) d.pb(a[i]); d.put(o); d.n = 0; d.pb(x).put(o))
DOP(Equal, const D e(d); const D& c = d; *o++ = e == c; *o++ = c == e; if (S) { d[S/2] = Tr(x); *o++ = e == c; }, *o++ = 1; *o++ = 1; if (S) *o++ = a[S/2] == x)
// two arrays
#define ST2 template <size_t N, int C1, int S1, int C2, int S2>
#define DO2(S_, IM, SP) ST2 struct S_ { typedef SmallStorage<Tr,N> D; static void impl(const double* a, const double* b, double x, double y, double* o) { D d, e; St<N,C1,S1>::fill(d, a); St<N,C2,S2>::fill(e, b); IM; } static void spec(const double* a, const double* b, double x, double y, double* o) { Sq d = St<N,C1,S1>::seq(a), e = St<N,C2,S2>::seq(b); SP; } };
DO2(CopyAssign, D& r = (d = e); *o++ = &r == &d; put(d,o); put(e,o); *o++ = d == e; FOR(i,3) d.push_back(Tr(x)); put(d,o); put(e,o); FOR(i,3) e.push_back(Tr(y)); put(d,o); put(e,o), *o++ = 1; d = e; d.put(o); e.put(o); *o++ = 1; d.pb(x).pb(x).pb(x).put(o); e.put(o); e.pb(y).pb(y).pb(y); d.put(o); e.put(o))
DO2(MoveAssign, D& r = (d = std::move(e)); *o++ = &r == &d; put(d,o); put(e,o); FOR(i,3) d.push_back(Tr(x)); put(d,o); FOR(i,4) e.push_back(Tr(y)); put(d,o); put(e,o), *o++ = 1; d = e; d.put(o); e.n = 0; e.put(o); d.pb(x).pb(x).pb(x).put(o); e.pb(y).pb(y).pb(y).pb(y); d.put(o); e.put(o))
DO2(Swap, std::swap(d, e); put(d,o); put(e,o); d.push_back(Tr(x)); e.push_back(Tr(y)); put(d,o); put(e,o), e.put(o); d.put(o); e.pb(x).put(o); d.pb(y).put(o))
DO2(EqualPair, const D& c = d; *o++ = c == e, bool q = S1 == S2; if (S1 == S2) FOR(i,S1) q = q && a[i] == b[i]; *o++ = q)
#define U(O,N,C,S) template struct O<N,C,S>;
#define UN_(O,N) U(O,N,0,0) U(O,N,0,1) U(O,N,0,2) U(O,N,0,3) U(O,N,0,4) U(O,N,4,0) U(O,N,4,2) U(O,N,4,4) U(O,N,5,3)
#define UA(O) UN_(O,0) UN_(O,1) UN_(O,2) UN_(O,3)
UA(State) UA(PushBack) UA(Emplace) UA(PushOwn) UA(PopBack) UA(Drain) UA(Index) UA(Clear) UA(Reserve) UA(Room) UA(Resize) UA(CopyCtor) UA(MoveCtor) UA(Self) UA(FromArray) UA(FromList) UA(Equal)
#define B1(O,N,C,S) template struct O<N,C,S,0,0>; template struct O<N,C,S,0,1>; template struct O<N,C,S,0,2>; template struct O<N,C,S,0,3>; template struct O<N,C,S,4,1>; template struct O<N,C,S,4,4>; template struct O<N,C,S,5,0>;
#define BN(O,N) B1(O,N,0,0) B1(O,N,0,1) B1(O,N,0,2) B1(O,N,0,3) B1(O,N,4,1) B1(O,N,4,4) B1(O,N,6,5)
#define BA(O) BN(O,0) BN(O,2) BN(O,3)
BA(CopyAssign) BA(MoveAssign) BA(Swap) BA(EqualPair)
