// Quaternions.
#include "w.h"
#include <geomc/linalg/Quaternion.h>
#define DF(S) template struct S<double>; template struct S<float>;
#define QA Quat<T>(a)
#define QB Quat<T>(b)
template <class T> inline void svq(T* o, const Quat<T>& q) { o[0] = q.x; o[1] = q.y; o[2] = q.z; o[3] = q.w; }
template <class T> inline void hamilton(const T* p, const T* q, T* o) {
  FOR(i,3) { index_t j = (i+1)%3, k = (i+2)%3; o[i] = p[3]*q[i] + q[3]*p[i] + p[j]*q[k] - p[k]*q[j]; } o[3] = p[3]*q[3] - DOT(p,q,3); }
#define UQ(S, IM, SP) T1 struct S { static void impl(const T* a, T* o) { IM; } static void spec(const T* a, T* o) { SP; } }; DF(S)
#define BQ(S, IM, SP) T1 struct S { static void impl(const T* a, const T* b, T* o) { IM; } static void spec(const T* a, const T* b, T* o) { SP; } }; DF(S)
#define TQ(S, IM, SP) T1 struct S { static void impl(const T* a, const T* b, T s, T* o) { IM; } static void spec(const T* a, const T* b, T s, T* o) { SP; } }; DF(S)
BQ(Mult, svq(o, QA * QB); svq(o+4, QA.mult(QB)), hamilton(a, b, o); hamilton(a, b, o+4))
UQ(Conj, svq(o, QA.conj()); svq(o+4, std::conj(QA)), FOR(i,3) { o[i] = -a[i]; o[4+i] = -a[i]; } o[3] = a[3]; o[7] = a[3])
UQ(Parts, sv(o, QA.imag()); o[3] = QA.real(); svq(o+4, Quat<T>(Vec<T,3>(a), a[3])); svq(o+8, Quat<T>(a[0], a[1], a[2], a[3])); svq(o+12, Quat<T>(Vec<T,4>(a))), FOR(i,16) o[i] = a[i%4])
T1 struct Ident { static void impl(T* o) { svq(o, Quat<T>::identity()); } static void spec(T* o) { o[0] = o[1] = o[2] = 0; o[3] = 1; } }; DF(Ident)
// q * v * conj(q) for any quaternion
T1 struct RotV { static void impl(const T* a, const T* v, T* o) { sv(o, QA * Vec<T,3>(v)); sv(o+3, Vec<T,3>(v) * QA); }
  static void spec(const T* a, const T* v, T* o) { T w = a[3], d = DOT(a,v,3), n = MAG2(a,3); FOR(i,3) { index_t j = (i+1)%3, k = (i+2)%3; T c = a[j]*v[k]-a[k]*v[j]; o[i] = (w*w-n)*v[i] + 2*d*a[i] + 2*w*c; o[3+i] = (w*w-n)*v[i] + 2*d*a[i] - 2*w*c; } } }; DF(RotV)
TQ(AxisAngle, svq(o, Quat<T>::rotation_from_axis_angle(Vec<T,3>(a), s)), T m = MAG(a,3); FOR(i,3) o[i] = m == 0 ? 0 : a[i]/m*std::sin(s/2); o[3] = m == 0 ? 1 : std::cos(s/2))
// the rotation it stands for is the rotation by the whole angle about the axis
T1 struct AxisAngleRot { static void impl(const T* a, const T* v, T s, T* o) { vg_assume(MAG2(a,3) > 0); sv(o, Quat<T>::rotation_from_axis_angle(Vec<T,3>(a), s) * Vec<T,3>(v)); }
  static void spec(const T* a, const T* v, T s, T* o) { T m = MAG(a,3); T k[3] = {a[0]/m, a[1]/m, a[2]/m}; T c = std::cos(s), n = std::sin(s), d = DOT(k,v,3); FOR(i,3) { index_t j = (i+1)%3, l = (i+2)%3; o[i] = c*v[i] + n*(k[j]*v[l]-k[l]*v[j]) + (1-c)*d*k[i]; } } }; DF(AxisAngleRot)
T1 struct AlignTakes { static void impl(const T* a, const T* b, T* o) { vg_assume(MAG2(a,3) == 1); vg_assume(MAG2(b,3) == 1); sv(o, Quat<T>::rotation_direction_align(Vec<T,3>(a), Vec<T,3>(b)) * Vec<T,3>(a)); } static void spec(const T* a, const T* b, T* o) { vg_assume(DOT(a,b,3) > -1); FOR(i,3) o[i] = b[i]; } }; template struct AlignTakes<double>;
T1 struct AlignFlip { static void impl(const T* a, T* o) { vg_assume(MAG2(a,3) == 1); sv(o, Quat<T>::rotation_direction_align(Vec<T,3>(a), -Vec<T,3>(a)) * Vec<T,3>(a)); } static void spec(const T* a, T* o) { FOR(i,3) o[i] = -a[i]; } }; template struct AlignFlip<double>;
UQ(ToAxisAngle, sv(o, QA.to_axis_angle_rotation()), T m = MAG(a,3); T w = a[3] < -1 ? (T)-1 : a[3] > 1 ? (T)1 : a[3]; if (m == 0) { o[0] = 1; o[1] = o[2] = o[3] = 0; } else { FOR(i,3) o[i] = a[i]/m; o[3] = 2*std::acos(w); })
UQ(ToAngular, sv(o, QA.to_angular_velocity()), T m = MAG(a,3); T w = a[3] < -1 ? (T)-1 : a[3] > 1 ? (T)1 : a[3]; FOR(i,3) o[i] = m == 0 ? 0 : 2*std::acos(w)*a[i]/m)
// unit quaternion -> axis, angle -> quaternion
UQ(AxisAngleTrip, vg_assume(MAG2(a,4) == 1); vg_assume(MAG2(a,3) > 0); auto v = QA.to_axis_angle_rotation(); svq(o, Quat<T>::rotation_from_axis_angle(Vec<T,3>(v.x, v.y, v.z), v.w)), FOR(i,4) o[i] = a[i])
T1 struct RotScale { static void impl(const T* a, T s, T* o) { svq(o, QA.rotation_scale(s)); } static void spec(const T* a, T s, T* o) { T m = MAG(a,3); T w = a[3] < -1 ? (T)-1 : a[3] > 1 ? (T)1 : a[3]; T t = std::acos(w)*s; FOR(i,3) o[i] = m == 0 ? 0 : std::sin(t)*a[i]/m; o[3] = m == 0 ? 1 : std::cos(t); } }; DF(RotScale)
// spherical interpolation from a to c*a + sqrt(1-c^2)*p, where p = u a for a unit imaginary u is any unit quaternion orthogonal to a
template <class T> inline void ortho(const T* a, const T* u, T* p) { T x[4] = {u[0],u[1],u[2],0}; hamilton(x, a, p); }
T1 struct Slerp { static void impl(const T* a, const T* u, T c, T s, T* o) { vg_assume(MAG2(a,4) == 1); vg_assume(MAG2(u,3) == 1); vg_assume(c < 1); vg_assume(c > -1); T p[4], b[4]; ortho(a, u, p); FOR(i,4) b[i] = c*a[i] + std::sqrt(1-c*c)*p[i]; svq(o, QA.slerp(QB, s)); }
  static void spec(const T* a, const T* u, T c, T s, T* o) { T p[4]; ortho(a, u, p); T g = c < 0 ? -1 : 1; T th = std::acos(g*c)*s; FOR(i,4) o[i] = std::cos(th)*a[i] + g*std::sin(th)*p[i]; } }; DF(Slerp)
TQ(SlerpSame, vg_assume(MAG2(a,4) == 1); svq(o, QA.slerp(QA, s)); svq(o+4, QA.slerp(-QA, s)), FOR(i,4) o[i] = o[4+i] = a[i])
UQ(Exp, svq(o, QA.exp()); svq(o+4, std::exp(QA)), T m = MAG(a,3); T k = std::exp(a[3]); FOR(j,2) { FOR(i,3) o[4*j+i] = m == 0 ? 0 : k*std::sin(m)*a[i]/m; o[4*j+3] = k*std::cos(m); })
UQ(Log, vg_assume(MAG2(a,4) > 0); svq(o, QA.log()), T v = MAG(a,3); T q = MAG(a,4); T k = std::acos(a[3]/q); FOR(i,3) o[i] = v == 0 ? (i == 0 ? k : 0) : k*a[i]/v; o[3] = std::log(q))
T1 struct Pow { static void impl(const T* a, T s, T* o) { vg_assume(MAG2(a,4) > 0); svq(o, std::pow(QA, s)); } static void spec(const T* a, T s, T* o) { T v = MAG(a,3), q = MAG(a,4); T t = s*std::acos(a[3]/q); T p = std::pow(q, s); FOR(i,3) o[i] = v == 0 ? (i == 0 ? p*std::sin(t) : 0) : p*std::sin(t)*a[i]/v; o[3] = p*std::cos(t); } }; DF(Pow)
// vector-space operations act componentwise
TQ(Linear, svq(o, QA + QB); svq(o+4, QA - QB); svq(o+8, QA * s); svq(o+12, -QA); svq(o+16, QA / s), FOR(i,4) { o[i] = a[i]+b[i]; o[4+i] = a[i]-b[i]; o[8+i] = a[i]*s; o[12+i] = -a[i]; o[16+i] = a[i]/s; })
BQ(Metric, o[0] = QA.dot(QB); o[1] = QA.mag2(); o[2] = QA.mag(); svq(o+3, QA.unit()), o[0] = DOT(a,b,4); o[1] = MAG2(a,4); o[2] = MAG(a,4); FOR(i,4) o[3+i] = a[i]/MAG(a,4))
