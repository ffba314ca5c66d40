// Helpers for witness translation units.  Each obligation is a class template with two static members, impl (calls
// geomc) and spec (plain arithmetic on the raw inputs); explicit instantiation puts both in the IR, where the value-graph
// analysis compares them.  Nothing is linked or run.
#pragma once
#include "vg.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/LinalgTypes.h>
#include <cmath>
#include <algorithm>
using namespace geom;
template <class T, index_t N> inline Vec<T,N> ld(const T* a) { return Vec<T,N>(a); }
template <class T, index_t N> inline void sv(T* o, const Vec<T,N>& v) { for (index_t i = 0; i < N; ++i) o[i] = v[i]; }
#define FOR(i,n) for (index_t i = 0; i < (index_t)(n); ++i)
#define I3(S,T) template struct S<T,2>; template struct S<T,3>; template struct S<T,4>; template struct S<T,5>;
#define INST_D(S) I3(S,double)
#define INST_DF(S) I3(S,double) template struct S<float,3>;
#define INST_ALL(S) I3(S,double) template struct S<float,2>; template struct S<float,3>; template struct S<float,4>; template struct S<float,7>; template struct S<int,2>; template struct S<int,3>; template struct S<int,4>; template struct S<int,5>;
#define TN template <class T, index_t N>
#define T1 template <class T>
// unary, binary, ternary obligations over arrays a, b, c and scalars s, t
#define UN(S, IM, SP) TN struct S { static void impl(const T* a, T* o) { IM; } static void spec(const T* a, T* o) { SP; } };
#define BI(S, IM, SP) TN struct S { static void impl(const T* a, const T* b, T* o) { IM; } static void spec(const T* a, const T* b, T* o) { SP; } };
#define TE(S, IM, SP) TN struct S { static void impl(const T* a, const T* b, const T* c, T* o) { IM; } static void spec(const T* a, const T* b, const T* c, T* o) { SP; } };
#define US(S, IM, SP) TN struct S { static void impl(const T* a, T s, T* o) { IM; } static void spec(const T* a, T s, T* o) { SP; } };
#define BS(S, IM, SP) TN struct S { static void impl(const T* a, const T* b, T s, T* o) { IM; } static void spec(const T* a, const T* b, T s, T* o) { SP; } };
#define PB1(S, IM, SP) TN struct S { static bool impl(const T* a) { IM; } static bool spec(const T* a) { SP; } };
#define PB2(S, IM, SP) TN struct S { static bool impl(const T* a, const T* b) { IM; } static bool spec(const T* a, const T* b) { SP; } };
#define PX1(S, IM, SP) TN struct S { static index_t impl(const T* a) { IM; } static index_t spec(const T* a) { SP; } };
#define A_ (ld<T,N>(a))
#define B_ (ld<T,N>(b))
#define C_ (ld<T,N>(c))
template <class T> inline T DOT(const T* a, const T* b, index_t n) { T s = 0; FOR(i,n) s = s + a[i]*b[i]; return s; }
template <class T> inline T MAG2(const T* a, index_t n) { return DOT(a, a, n); }
template <class T> inline T MAG(const T* a, index_t n) { return std::sqrt(DOT(a, a, n)); }
