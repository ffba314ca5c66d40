// Storage arrays: the ownership policies.  Copies of a unique array are independent, copies of a shared array are the same
// array, wrapped arrays are the caller's; memory is released exactly once, by its last owner.
#include "w.h"
#include "tr.h"
#include <geomc/Storage.h>
template <class D> void put(const D& d, index_t n, double*& o) { FOR(i,n) *o++ = d.get()[i].get(); FOR(i,n) *o++ = Tr(d[i]).get(); }
inline void sq(const double* a, index_t n, double*& o) { FOR(k,2) FOR(i,n) *o++ = a[i]; }
template <int S> struct Src { Tr t[S + 1]; Src(const double* a) { FOR(i,S) t[i].v = a[i]; } };
#define TS template <int S>
#define OBL(S_, IM, SP) TS struct S_ { static void impl(const double* a, const double* b, double x, double* o) { Src<S> A(a), B(b); IM; } static void spec(const double* a, const double* b, double x, double* o) { SP; } };
// one owner
typedef UniqueStorage<Tr,0> Un;
OBL(UniqueMake, Un d(S, A.t); *o++ = d.size(); put(d,S,o); Un e(S); *o++ = e.size(); put(e,S,o); if (S) { d[S-1] = Tr(x); *o++ = d.get()[S-1].get(); }, *o++ = S; sq(a,S,o); *o++ = S; FOR(i,2*S) *o++ = -555; if (S) *o++ = x)
OBL(UniqueCopy, Un d(S, A.t); Un e(d); *o++ = e.size(); put(e,S,o); if (S) d[0] = Tr(x); put(e,S,o); *o++ = !S || e.get() != d.get(); put(d,S,o), *o++ = S; sq(a,S,o); sq(a,S,o); *o++ = 1; FOR(k,2) FOR(i,S) *o++ = i ? a[i] : x)
OBL(UniqueMove, Un d(S, A.t); Un e(std::move(d)); *o++ = e.size(); put(e,S,o); *o++ = d.size(); d = e; put(d,S,o); *o++ = d.size(); e = std::move(d); put(e,S,o); *o++ = e.size(); *o++ = d.size(); d = Un(S, B.t); put(d,S,o); put(e,S,o), *o++ = S; sq(a,S,o); *o++ = 0; sq(a,S,o); *o++ = S; sq(a,S,o); *o++ = S; *o++ = 0; sq(b,S,o); sq(a,S,o))
OBL(UniqueSelf, Un d(S, A.t); Un& e = d; d = e; put(d,S,o); *o++ = d.size(); d = std::move(e); d = Un(S, B.t); put(d,S,o), sq(a,S,o); *o++ = S; sq(b,S,o))
template <int S, int R> struct UniqueAssign { static void impl(const double* a, const double* b, double x, double* o) { Src<S> A(a); Src<R> B(b); Un d(S, A.t), e(R, B.t); Un& r = (d = e); *o++ = &r == &d; *o++ = d.size(); put(d,R,o); if (R) d[0] = Tr(x); put(e,R,o); std::swap(d, e); put(d,R,o); put(e,R,o); Un& q = (e = Un(S, A.t)); *o++ = &q == &e; *o++ = e.size(); put(e,S,o); }
  static void spec(const double* a, const double* b, double x, double* o) { *o++ = 1; *o++ = R; sq(b,R,o); sq(b,R,o); sq(b,R,o); FOR(k,2) FOR(i,R) *o++ = i ? b[i] : x; *o++ = 1; *o++ = S; sq(a,S,o); } };
template <class D> D l3(double p, double q, double r) { return D{Tr(p), Tr(q), Tr(r)}; }
TS struct UniqueList { static void impl(double x, double y, double z, double* o) { Un d = l3<Un>(x, y, z); *o++ = d.size(); put(d,3,o); UniqueStorage<Tr,3> e = l3<UniqueStorage<Tr,3>>(x, y, z); put(e,3,o); GenericStorage<Tr,0,STORAGE_UNIQUE> f = l3<GenericStorage<Tr,0,STORAGE_UNIQUE>>(x, y, z); put(f,3,o); *o++ = f.size(); GenericStorage<Tr,3,STORAGE_UNIQUE> g = l3<GenericStorage<Tr,3,STORAGE_UNIQUE>>(x, y, z); put(g,3,o); GenericStorage<Tr,3,STORAGE_SHARED> h = l3<GenericStorage<Tr,3,STORAGE_SHARED>>(x, y, z); put(h,3,o); }
  static void spec(double x, double y, double z, double* o) { double a[3] = {x,y,z}; *o++ = 3; sq(a,3,o); sq(a,3,o); sq(a,3,o); *o++ = 3; sq(a,3,o); sq(a,3,o); } };
// static size: an ordinary array inside the object
template <class D, int S> void still(const double* a, const double* b, double x, double* o) { Src<S> A(a), B(b); D d(S, A.t); put(d,S,o); D e(d); e[S-1] = Tr(x); put(d,S,o); put(e,S,o); d = D(S, B.t); put(d,S,o); D f(std::move(e)); put(f,S,o); D g((index_t)S); put(g,S,o); const D& c = f; *o++ = c.get() == f.get() && (const void*)c.get() == (const void*)&f; }
template <int S> void still(const double* a, const double* b, double x, double* o) { sq(a,S,o); sq(a,S,o); FOR(k,2) FOR(i,S) *o++ = i == S-1 ? x : a[i]; sq(b,S,o); FOR(k,2) FOR(i,S) *o++ = i == S-1 ? x : a[i]; FOR(i,2*S) *o++ = -555; *o++ = 1; }
#define STILL(S_, ...) TS struct S_ { static void impl(const double* a, const double* b, double x, double* o) { typedef __VA_ARGS__ D; still<D,S>(a, b, x, o); } static void spec(const double* a, const double* b, double x, double* o) { still<S>(a, b, x, o); } };
STILL(StillUnique, UniqueStorage<Tr,S>) STILL(StillStorage, Storage<Tr,S>) STILL(StillGenericU, GenericStorage<Tr,S,STORAGE_UNIQUE>) STILL(StillGenericS, GenericStorage<Tr,S,STORAGE_SHARED>)
template <int S> using Sz = SizedStorage<Tr,S>; template <int S> using Uq = UniqueStorage<Tr,S>; template <int S> using Ss = Storage<Tr,S>;
OBL(StillSized, Sz<S> d; Sz<S> e(S); *o++ = d.size(); *o++ = e.size(); put(e,S,o); *o++ = Uq<S>().size(); *o++ = Ss<S>().size(); Ss<S> f(A.t); put(f,S,o), *o++ = S; *o++ = S; FOR(i,2*S) *o++ = -555; *o++ = S; *o++ = S; sq(a,S,o))
// shared
template <class D, int S> void shared(const double* a, const double* b, double x, double* o) { Src<S> A(a), B(b); D* d = new D(S, A.t); put(*d,S,o); D e(*d); *o++ = e.get() == d->get(); if (S) e[S-1] = Tr(x); put(*d,S,o); D f(S, B.t); D g(f); f = e; *o++ = f.get() == e.get(); delete d; put(f,S,o); put(g,S,o); g = g; put(g,S,o); D h(std::move(g)); put(h,S,o); e = h; put(e,S,o); put(f,S,o); D i((index_t)S); put(i,S,o); }
template <int S> void shared(const double* a, const double* b, double x, double* o) { sq(a,S,o); *o++ = 1; FOR(k,2) FOR(i,S) *o++ = i == S-1 ? x : a[i]; *o++ = 1; FOR(k,2) FOR(i,S) *o++ = i == S-1 ? x : a[i]; sq(b,S,o); sq(b,S,o); sq(b,S,o); sq(b,S,o); FOR(k,2) FOR(i,S) *o++ = i == S-1 ? x : a[i]; FOR(i,2*S) *o++ = -555; }
#define SHARED(S_, ...) TS struct S_ { static void impl(const double* a, const double* b, double x, double* o) { typedef __VA_ARGS__ D; shared<D,S>(a, b, x, o); } static void spec(const double* a, const double* b, double x, double* o) { shared<S>(a, b, x, o); } };
SHARED(SharedStorage, Storage<Tr,0>) SHARED(SharedGeneric, GenericStorage<Tr,0,STORAGE_SHARED>)
typedef SizedStorage<Tr,0> Sd;
OBL(SharedSized, Sd d(S); *o++ = d.size(); put(d,S,o); Sd e(d); *o++ = e.size(); *o++ = e.get() == d.get(); if (S) e[0] = Tr(x); put(d,S,o), *o++ = S; FOR(i,2*S) *o++ = -555; *o++ = S; *o++ = 1; FOR(k,2) FOR(i,S) *o++ = i ? -555 : x)
// the caller's memory
template <class D, int S> void wrapped(const double* a, const double* b, double x, double* o) { Src<S> A(a), B(b); { D d(S, A.t); *o++ = d.size(); *o++ = d.get() == A.t; put(d,S,o); D e(d); *o++ = e.size(); if (S) e[S-1] = Tr(x); put(d,S,o); D f(S, B.t); f = d; *o++ = f.get() == A.t; *o++ = f.size(); const D& c = d; *o++ = c.get() == A.t; } FOR(i,S) { *o++ = A.t[i].get(); *o++ = B.t[i].get(); } }
#define WRAPPED(S_, ...) TS struct S_ { static void impl(const double* a, const double* b, double x, double* o) { typedef __VA_ARGS__ D; wrapped<D,S>(a, b, x, o); } static void spec(const double* a, const double* b, double x, double* o) { *o++ = S; *o++ = 1; sq(a,S,o); *o++ = S; FOR(k,2) FOR(i,S) *o++ = i == S-1 ? x : a[i]; *o++ = 1; *o++ = S; *o++ = 1; FOR(i,S) { *o++ = i == S-1 ? x : a[i]; *o++ = b[i]; } } };
WRAPPED(Wrapped, WrappedStorage<Tr,0>) WRAPPED(WrappedGeneric, GenericStorage<Tr,0,STORAGE_WRAPPED>) WRAPPED(WrappedStill, WrappedStorage<Tr,S>) WRAPPED(WrappedStillGeneric, GenericStorage<Tr,S,STORAGE_WRAPPED>)
TS struct Dim { static void impl(index_t v, double* o) { vg_assume(v > -1000000 && v < 1000000); index_t s[2] = {7,7}; Dimension<S>::set(s, v); *o++ = Dimension<S>::get(s); *o++ = sizeof(typename Dimension<S>::storage_t); *o++ = s[1]; } static void spec(index_t v, double* o) { *o++ = S ? S : v; *o++ = S ? 0 : sizeof(index_t); *o++ = 7; } };
#define D4(S_) template struct S_<0>; template struct S_<1>; template struct S_<2>; template struct S_<3>;
#define D3(S_) template struct S_<1>; template struct S_<2>; template struct S_<3>;
D4(UniqueMake) D4(UniqueCopy) D4(UniqueMove) D4(UniqueSelf) D4(SharedStorage) D4(SharedGeneric) D4(SharedSized) D4(Wrapped) D4(WrappedGeneric) D4(Dim)
D3(StillUnique) D3(StillStorage) D3(StillGenericU) D3(StillGenericS) D3(StillSized) D3(WrappedStill) D3(WrappedStillGeneric)
template struct UniqueList<0>;
#define UA(S) template struct UniqueAssign<S,0>; template struct UniqueAssign<S,1>; template struct UniqueAssign<S,2>; template struct UniqueAssign<S,3>;
UA(0) UA(1) UA(2) UA(3)
