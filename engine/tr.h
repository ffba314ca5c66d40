// An element whose life the analysis follows: construction, use and destruction are reported to the typestate rule by
// address, and a moved-from element holds a value no sequence expects.
#pragma once
#include "vg.h"
#include <utility>
struct Tr { double v;
  Tr() : v(-555) { vg_born(this); }
  Tr(double x) : v(x) { vg_born(this); }
  Tr(const Tr& o) { vg_live(&o); v = o.v; vg_born(this); }
  Tr(Tr&& o) { vg_live(&o); v = o.v; o.v = -777; vg_born(this); }
  Tr& operator=(const Tr& o) { vg_live(this); vg_live(&o); v = o.v; return *this; }
  Tr& operator=(Tr&& o) { vg_live(this); vg_live(&o); v = o.v; o.v = -777; return *this; }
  ~Tr() { vg_dies(this); }
  double get() const { vg_live(this); return v; } };
inline bool operator==(const Tr& a, const Tr& b) { return a.get() == b.get(); }
inline bool operator!=(const Tr& a, const Tr& b) { return !(a == b); }
// a sequence of values, as the specification sees it
struct Sq { double x[24]; long n = 0;
  Sq& pb(double v) { x[n++] = v; return *this; }
  Sq& pf(double v) { for (long i = n; i > 0; --i) x[i] = x[i-1]; x[0] = v; ++n; return *this; }
  double qb() { return x[--n]; }
  double qf() { double v = x[0]; --n; for (long i = 0; i < n; ++i) x[i] = x[i+1]; return v; } 
  void put(double*& o) const { *o++ = n; for (long i = 0; i < n; ++i) *o++ = x[i]; } };
