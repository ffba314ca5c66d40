// Vec: polar and spherical coordinates.
#include "w.h"
T1 struct Polar { static void impl(const T* a, T* o) { sv(o, Vec<T,2>(a).to_polar()); } static void spec(const T* a, T* o) { o[0] = MAG(a,2); T t = std::atan2(a[1], a[0]); o[1] = t < 0 ? t + 2*(T)vg_pi() : t; } };
T1 struct FromPolar { static void impl(const T* a, T* o) { sv(o, Vec<T,2>(a).from_polar()); } static void spec(const T* a, T* o) { o[0] = a[0]*std::cos(a[1]); o[1] = a[0]*std::sin(a[1]); } };
T1 struct PolarTrip { static void impl(const T* a, T* o) { sv(o, Vec<T,2>(a).to_polar().from_polar()); } static void spec(const T* a, T* o) { o[0] = a[0]; o[1] = a[1]; } };
T1 struct Spherical { static void impl(const T* a, T* o) { sv(o, Vec<T,3>(a).to_spherical()); } static void spec(const T* a, T* o) { T r = MAG(a,3); o[0] = r; o[1] = std::acos(a[2]/r); o[2] = std::atan2(a[1], a[0]); } };
T1 struct FromSpherical { static void impl(T r, T e, T z, T* o) { sv(o, Vec<T,3>::from_spherical(r, e, z)); } static void spec(T r, T e, T z, T* o) { o[0] = r*std::sin(e)*std::cos(z); o[1] = r*std::sin(e)*std::sin(z); o[2] = r*std::cos(e); } };
T1 struct SphericalTrip { static void impl(const T* a, T* o) { vg_assume(MAG2(a,3) > 0); Vec<T,3> s = Vec<T,3>(a).to_spherical(); sv(o, Vec<T,3>::from_spherical(s.x, s.y, s.z)); } static void spec(const T* a, T* o) { FOR(i,3) o[i] = a[i]; } };
#define DF(S) template struct S<double>; template struct S<float>;
DF(Polar) DF(FromPolar) DF(PolarTrip) DF(Spherical) DF(FromSpherical) DF(SphericalTrip)
