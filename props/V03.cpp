// Vec: cross products, perpendiculars and rotations of the plane and of space.
#include "w.h"
T1 struct Cross { static void impl(const T* a, const T* b, T* o) { Vec<T,3> x(a), y(b); sv(o, x.cross(y)); sv(o+3, x ^ y); }
  static void spec(const T* a, const T* b, T* o) { FOR(i,3) { index_t j = (i+1)%3, k = (i+2)%3; o[i] = o[3+i] = a[j]*b[k] - a[k]*b[j]; } } };
template struct Cross<double>; template struct Cross<float>; template struct Cross<int>;
T1 struct Perp2 { static void impl(const T* a, T* o) { Vec<T,2> v(a); sv(o, v.left_perpendicular()); sv(o+2, v.right_perpendicular()); } static void spec(const T* a, T* o) { o[0] = -a[1]; o[1] = a[0]; o[2] = a[1]; o[3] = -a[0]; } };
template struct Perp2<double>; template struct Perp2<float>; template struct Perp2<int>;
T1 struct Rot2 { static void impl(const T* a, T t, T* o) { Vec<T,2> v(a); sv(o, v.rotated(t)); } static void spec(const T* a, T t, T* o) { T c = std::cos(t), s = std::sin(t); o[0] = c*a[0]-s*a[1]; o[1] = s*a[0]+c*a[1]; } };
T1 struct Rot2C { static void impl(const T* a, const T* c, T t, T* o) { Vec<T,2> v(a); sv(o, v.rotate(Vec<T,2>(c), t)); }
  static void spec(const T* a, const T* c, T t, T* o) { T k = std::cos(t), s = std::sin(t), x = a[0]-c[0], y = a[1]-c[1]; o[0] = c[0] + k*x-s*y; o[1] = c[1] + s*x+k*y; } };
template struct Rot2<double>; template struct Rot2<float>; template struct Rot2C<double>; template struct Rot2C<float>;
template <class T> inline void rodrigues(const T* v, const T* u, T t, T* o) {
  T m = MAG(u,3); T k[3] = {u[0]/m, u[1]/m, u[2]/m}; T c = std::cos(t), s = std::sin(t); T d = DOT(k, v, 3);
  FOR(i,3) { index_t j = (i+1)%3, l = (i+2)%3; o[i] = c*v[i] + s*(k[j]*v[l]-k[l]*v[j]) + (1-c)*d*k[i]; } }
T1 struct Rot3 { static void impl(const T* a, const T* u, T t, T* o) { Vec<T,3> v(a); sv(o, v.rotate(Vec<T,3>(u), t)); sv(o+3, v.rotate(u[0], u[1], u[2], t)); } static void spec(const T* a, const T* u, T t, T* o) { rodrigues(a, u, t, o); rodrigues(a, u, t, o+3); } };
T1 struct Rot3C { static void impl(const T* a, const T* u, const T* c, T t, T* o) { Vec<T,3> v(a); sv(o, v.rotate(Vec<T,3>(u), Vec<T,3>(c), t)); sv(o+3, v.rotate(u[0], u[1], u[2], c[0], c[1], c[2], t)); }
  static void spec(const T* a, const T* u, const T* c, T t, T* o) { T x[3] = {a[0]-c[0], a[1]-c[1], a[2]-c[2]}; rodrigues(x, u, t, o); FOR(i,3) { o[i] += c[i]; o[3+i] = o[i]; } } };
template struct Rot3<double>; template struct Rot3<float>; template struct Rot3C<double>; template struct Rot3C<float>;
// align: the rotation that takes `from` to `to` (unit vectors), lengths and angles preserved
T1 struct Align { static void impl(const T* a, const T* f, const T* t, T* o) { Vec<T,3> v(a); vg_assume(MAG2(f,3) == 1); vg_assume(MAG2(t,3) == 1); vg_assume(DOT(f,t,3) > -1); sv(o, v.align(Vec<T,3>(f), Vec<T,3>(t))); }
  static void spec(const T* a, const T* f, const T* t, T* o) { T c = DOT(f,t,3); T q[3]; FOR(i,3) { index_t j = (i+1)%3, l = (i+2)%3; q[i] = f[j]*t[l]-f[l]*t[j]; } T d = DOT(q,a,3);
    FOR(i,3) { index_t j = (i+1)%3, l = (i+2)%3; o[i] = c*a[i] + (q[j]*a[l]-q[l]*a[j]) + d*q[i]/(1+c); } } };
template struct Align<double>; template struct Align<float>;
T1 struct AlignTakes { static void impl(const T* f, const T* t, T* o) { vg_assume(MAG2(f,3) == 1); vg_assume(MAG2(t,3) == 1); vg_assume(DOT(f,t,3) > -1); Vec<T,3> v(f); sv(o, v.align(Vec<T,3>(f), Vec<T,3>(t))); }
  static void spec(const T* f, const T* t, T* o) { FOR(i,3) o[i] = t[i]; } };
template struct AlignTakes<double>;
