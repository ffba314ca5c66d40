// Deque: behaves as the sequence its operations describe, in every state of its buffer, and keeps every element alive
// exactly as long as it is contained.
#include "w.h"
#include "tr.h"
#include <geomc/Deque.h>
// a deque in a given state: room for CAP items asked for, first item H places into the buffer, S items a[0..S)
template <int N, int CAP, int H, int S> struct St {
  typedef Deque<Tr,N> D;
  static void fill(D& d, const double* a) { if (CAP) d.reserve(CAP); FOR(i,H) { d.push_back(Tr(-1.)); d.pop_front(); } FOR(i,S) d.push_back(Tr(a[i])); }
  static Sq seq(const double* a) { Sq s; FOR(i,S) s.pb(a[i]); return s; } };
template <class D> void put(const D& d, double*& o) { *o++ = d.size(); FOR(i,d.size()) *o++ = d[i].get(); if (d.size() > d.capacity()) *o++ = -999; }
#define STT template <int N, int CAP, int H, int S>
#define DOP(S_, IM, SP) STT struct S_ { typedef Deque<Tr,N> D; static void impl(const double* a, double x, double y, double* o) { D d; St<N,CAP,H,S>::fill(d, a); IM; } static void spec(const double* a, double x, double y, double* o) { Sq d = St<N,CAP,H,S>::seq(a); SP; } };
#define OPT(e) { auto r = e; *o++ = r.has_value(); if (r) *o++ = r->get(); }
#define SOPT(e) { *o++ = d.n > 0; if (d.n > 0) *o++ = e; }
DOP(State, put(d,o), d.put(o))
DOP(PushBack, d.push_back(x); put(d,o); *o++ = d.back().get(); *o++ = d.front().get(); Tr t(y); Tr& r = d.push_back(t); *o++ = r.get(); *o++ = t.get(); *o++ = &r == &d[-1]; put(d,o), d.pb(x).put(o); *o++ = x; *o++ = d.x[0]; d.pb(y); *o++ = y; *o++ = y; *o++ = 1; d.put(o))
DOP(PushFront, d.push_front(x); put(d,o); *o++ = d.back().get(); *o++ = d.front().get(); Tr t(y); Tr& r = d.push_front(t); *o++ = r.get(); *o++ = t.get(); *o++ = &r == &d[0]; put(d,o), d.pf(x).put(o); *o++ = d.x[d.n-1]; *o++ = x; d.pf(y); *o++ = y; *o++ = y; *o++ = 1; d.put(o))
DOP(PushMany, FOR(i,6) { if (i % 3 == 2) d.push_front(Tr(x+i)); else d.push_back(Tr(y+i)); } put(d,o), FOR(i,6) { if (i % 3 == 2) d.pf(x+i); else d.pb(y+i); } d.put(o))
DOP(PushOwn, if (S) { d.push_back(d[0]); d.push_front(d[-1]); d.push_back(d[1]); d.push_front(d.back()); } put(d,o), if (S) { d.pb(d.x[0]); d.pf(d.x[d.n-1]); d.pb(d.x[1]); d.pf(d.x[d.n-1]); } d.put(o))
DOP(PopBack, OPT(d.pop_back()) OPT(d.pop_back()) put(d,o); d.push_back(x); put(d,o); d.push_front(y); put(d,o), SOPT(d.qb()) SOPT(d.qb()) d.put(o); d.pb(x).put(o); d.pf(y).put(o))
DOP(PopFront, OPT(d.pop_front()) OPT(d.pop_front()) put(d,o); d.push_front(x); put(d,o); d.push_back(y); put(d,o), SOPT(d.qf()) SOPT(d.qf()) d.put(o); d.pf(x).put(o); d.pb(y).put(o))
DOP(Drain, FOR(i,S+1) { if (i % 2) OPT(d.pop_front()) else OPT(d.pop_back()) } put(d,o), FOR(i,S+1) { if (i % 2) SOPT(d.qf()) else SOPT(d.qb()) } d.put(o))
DOP(Index, const D& c = d; if (S) { for (int i = -2*S-1; i <= 2*S+1; ++i) { *o++ = d[i].get(); *o++ = c[i].get(); } d[-1] = Tr(x); d[0] = Tr(y); *o++ = c.front().get(); *o++ = c.back().get(); put(d,o); }, if (S) { for (int i = -2*S-1; i <= 2*S+1; ++i) { *o++ = a[((i%S)+S)%S]; *o++ = a[((i%S)+S)%S]; } d.x[S-1] = x; d.x[0] = y; *o++ = d.x[0]; *o++ = d.x[S-1]; d.put(o); })
DOP(Clear, d.clear(); put(d,o); d.push_back(x); d.push_front(y); put(d,o); d.clear(); put(d,o), d.n = 0; d.put(o); d.pf(x); d.pf(y).put(o); d.n = 0; d.put(o))
DOP(Reserve, for (int k = 0; k <= 7; ++k) { d.reserve(k); *o++ = d.capacity() >= k; put(d,o); } d.push_front(x); put(d,o); d.push_back(y); put(d,o), for (int k = 0; k <= 7; ++k) { *o++ = 1; d.put(o); } d.pf(x).put(o); d.pb(y).put(o))
DOP(Room, Tr* p = S ? &d[0] : nullptr; while (d.size() < d.capacity()) d.push_back(Tr(x)); *o++ = !S || p == &d[0]; *o++ = d.capacity() >= CAP && d.capacity() >= N, *o++ = 1; *o++ = 1)
DOP(CopyCtor, D e(d); put(e,o); put(d,o); e.push_back(Tr(x)); e.push_front(Tr(y)); put(e,o); e.push_back(Tr(x)); e.push_back(Tr(x)); e.push_back(Tr(y)); put(e,o); put(d,o); d.pop_front(); d.push_back(Tr(x)); put(d,o); put(e,o); *o++ = e == d, Sq e = d; e.put(o); d.put(o); e.pb(x).pf(y).put(o); e.pb(x).pb(x).pb(y).put(o); d.put(o); if (d.n) d.qf(); d.pb(x).put(o); e.put(o); *o++ = 0)
DOP(MoveCtor, D e(std::move(d)); put(e,o); put(d,o); e.push_back(Tr(x)); e.push_front(Tr(y)); put(e,o); d.push_back(Tr(x)); d.push_front(Tr(y)); put(d,o); d.push_front(Tr(y)); d.push_front(Tr(x)); put(d,o); put(e,o), Sq e = d; e.put(o); d.n = 0; d.put(o); e.pb(x).pf(y).put(o); d.pb(x).pf(y).put(o); d.pf(y).pf(x).put(o); e.put(o))
DOP(Self, D& e = d; d = e; put(d,o); d = std::move(e); put(d,o); d.push_back(x); put(d,o); *o++ = d == e; *o++ = d != e, d.put(o); d.put(o); d.pb(x).put(o); *o++ = 1; *o++ = 0)
DOP(FromIter, D e(a, S); put(e,o); *o++ = e == d; *o++ = e != d; e.push_back(x); put(e,o); *o++ = e == d; *o++ = e != d; e.push_front(y); put(e,o), d.put(o); *o++ = 1; *o++ = 0; d.pb(x).put(o); *o++ = 0; *o++ = 1; d.pf(y).put(o))
DOP(FromCap, D e(CAP); *o++ = e.capacity() >= CAP; *o++ = e.capacity() >= N; put(e,o); FOR(i,S) e.push_front(a[i]); put(e,o); e.push_back(x); put(e,o), *o++ = 1; *o++ = 1; d.n = 0; d.put(o); FOR(i,S) d.pf(a[i]); d.put(o); d.pb(x).put(o))
DOP(Equal, const D e(d); const D& c = d; *o++ = e == c; *o++ = c == e; *o++ = e != c; if (S) { d[S/2] = Tr(x); *o++ = e == c; *o++ = e != c; }, *o++ = 1; *o++ = 1; *o++ = 0; if (S) { *o++ = a[S/2] == x; *o++ = !(a[S/2] == x); })
// two deques
#define ST2 template <int N, int C1, int H1, int S1, int C2, int H2, int S2>
#define DO2(S_, IM, SP) ST2 struct S_ { typedef Deque<Tr,N> D; static void impl(const double* a, const double* b, double x, double y, double* o) { D d, e; St<N,C1,H1,S1>::fill(d, a); St<N,C2,H2,S2>::fill(e, b); IM; } static void spec(const double* a, const double* b, double x, double y, double* o) { Sq d = St<N,C1,H1,S1>::seq(a), e = St<N,C2,H2,S2>::seq(b); SP; } };
DO2(CopyAssign, D& r = (d = e); *o++ = &r == &d; put(d,o); put(e,o); d.push_back(Tr(x)); d.push_front(Tr(y)); put(d,o); put(e,o); e.push_back(Tr(y)); e.push_front(Tr(x)); put(d,o); put(e,o), *o++ = 1; d = e; d.put(o); e.put(o); d.pb(x).pf(y).put(o); e.put(o); e.pb(y).pf(x); d.put(o); e.put(o))
DO2(MoveAssign, D& r = (d = std::move(e)); *o++ = &r == &d; put(d,o); put(e,o); d.push_back(Tr(x)); d.push_front(Tr(y)); put(d,o); e.push_back(Tr(y)); e.push_front(Tr(x)); put(d,o); put(e,o); e.push_back(Tr(y)); e.push_back(Tr(x)); put(e,o); put(d,o), *o++ = 1; d = e; e.n = 0; d.put(o); e.put(o); d.pb(x).pf(y).put(o); e.pb(y).pf(x); d.put(o); e.put(o); e.pb(y).pb(x); e.put(o); d.put(o))
DO2(Swap, std::swap(d, e); put(d,o); put(e,o); d.push_back(Tr(x)); e.push_back(Tr(y)); put(d,o); put(e,o), e.put(o); d.put(o); e.pb(x).put(o); d.pb(y).put(o))
DO2(EqualPair, const D& c = d; *o++ = c == e; *o++ = c != e, bool q = S1 == S2; if (S1 == S2) FOR(i,S1) q = q && a[i] == b[i]; *o++ = q; *o++ = !q)
#define U(O,N,C,H,S) template struct O<N,C,H,S>;
#define US0(O) U(O,0,0,0,0) U(O,0,0,0,1) U(O,0,0,0,2) U(O,0,0,0,3) U(O,0,0,1,1) U(O,0,0,1,2) U(O,0,0,1,3) U(O,0,4,0,0) U(O,0,4,2,2) U(O,0,4,3,4) U(O,0,4,1,3) U(O,0,3,2,3)
#define US1(O) U(O,1,0,0,0) U(O,1,0,0,1) U(O,1,0,1,1) U(O,1,0,0,2) U(O,1,0,0,3) U(O,1,2,1,2) U(O,1,4,3,3) U(O,1,4,2,1)
#define US2(O) U(O,2,0,0,0) U(O,2,0,0,1) U(O,2,0,1,1) U(O,2,0,0,2) U(O,2,0,1,2) U(O,2,0,1,3) U(O,2,4,3,4) U(O,2,4,2,1) U(O,2,4,3,2)
#define US3(O) U(O,3,0,0,1) U(O,3,0,2,2) U(O,3,0,1,3) U(O,3,0,2,3) U(O,3,0,2,4) U(O,3,6,4,5)
#define UA(O) US0(O) US1(O) US2(O) US3(O)
UA(State) UA(PushBack) UA(PushFront) UA(PushMany) UA(PushOwn) UA(PopBack) UA(PopFront) UA(Drain) UA(Index) UA(Clear) UA(Reserve) UA(Room) UA(CopyCtor) UA(MoveCtor) UA(Self) UA(FromIter) UA(FromCap) UA(Equal)
#define B1(O,N,C,H,S) template struct O<N,C,H,S,0,0,0>; template struct O<N,C,H,S,0,0,1>; template struct O<N,C,H,S,0,1,2>; template struct O<N,C,H,S,0,1,3>; template struct O<N,C,H,S,4,3,1>; template struct O<N,C,H,S,4,3,4>; template struct O<N,C,H,S,5,2,2>;
#define BN(O,N) B1(O,N,0,0,0) B1(O,N,0,0,1) B1(O,N,0,1,2) B1(O,N,0,1,3) B1(O,N,4,3,1) B1(O,N,4,3,3) B1(O,N,6,4,5)
#define BA(O) BN(O,0) BN(O,2) BN(O,3)
BA(CopyAssign) BA(MoveAssign) BA(Swap) BA(EqualPair)
