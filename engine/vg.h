// Declarations understood by the value-graph analysis; nothing here is ever defined or run.
#pragma once
#include <cstdint>
extern "C" {
  double vg_diff(double f, double x) __attribute__((const));   // d f / d x, formed symbolically on the value graph
  void   vg_assume(bool c);                                     // precondition of the obligation
  double vg_pi() __attribute__((const));
  // typestate of an element, by address: constructed, about to be destroyed, about to be used
  void vg_born(const void* p) noexcept;
  void vg_dies(const void* p) noexcept;
  void vg_live(const void* p) noexcept;
}
// keeps both functions of an obligation that is not a template (nothing else refers to them)
#define VG_KEEP(X) __attribute__((used)) static const auto keep_impl_##X = &X::impl; __attribute__((used)) static const auto keep_spec_##X = &X::spec;
