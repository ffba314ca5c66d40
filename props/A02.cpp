// Transform builders: the matrix is the transform asked for and the stored inverse is its inverse.
#include "af.h"
// mat (all entries), then mat * inv
template <index_t N> inline void out(double* o, const AffineTransform<double,N>& x) { constexpr int H = (N+1)*(N+1); double m[H], i[H]; svm(m, x.mat); svm(i, x.inv); FOR(k,H) o[k] = m[k]; spec_mul(m, i, o+H, N+1, N+1, N+1); }
template <index_t N> inline void ident(double* o) { FOR(r,N+1) FOR(c,N+1) o[r*(N+1)+c] = r == c; }
template <index_t N> struct Transl { static constexpr int H = (N+1)*(N+1); static void impl(const double* t, double* o) { out<N>(o, translation(ld<double,N>(t))); if constexpr (N == 2) out<N>(o+2*H, translation(t[0], t[1])); if constexpr (N == 3) out<N>(o+2*H, translation(t[0], t[1], t[2])); }
  static void spec(const double* t, double* o) { FOR(k,N < 4 ? 2 : 1) { ident<N>(o+2*k*H); FOR(i,N) o[2*k*H + i*(N+1)+N] = t[i]; ident<N>(o+2*k*H+H); } } };
template struct Transl<2>; template struct Transl<3>; template struct Transl<4>;
template <index_t N> struct Scal { static constexpr int H = (N+1)*(N+1); static void impl(const double* t, double* o) { FOR(i,N) vg_assume(t[i] != 0); out<N>(o, scale(ld<double,N>(t))); if constexpr (N == 2) out<N>(o+2*H, scale(t[0], t[1])); if constexpr (N == 3) out<N>(o+2*H, scale(t[0], t[1], t[2])); }
  static void spec(const double* t, double* o) { FOR(k,N < 4 ? 2 : 1) { ident<N>(o+2*k*H); FOR(i,N) o[2*k*H + i*(N+1)+i] = t[i]; ident<N>(o+2*k*H+H); } } };
template struct Scal<2>; template struct Scal<3>; template struct Scal<4>;
template <index_t N, MatrixLayout L> struct Transf { static constexpr int H = (N+1)*(N+1); static double det(const double* a) { if constexpr (N == 2) return a[0]*a[3]-a[1]*a[2]; else return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); }
  static void impl(const double* a, double* o) { vg_assume(det(a) != 0); out<N>(o, transformation(MX<double,N,N,L>(a))); } static void spec(const double* a, double* o) { ident<N>(o); FOR(r,N) FOR(c,N) o[r*(N+1)+c] = a[r*N+c]; ident<N>(o+H); } };
template struct Transf<2,RM>; template struct Transf<2,CM>; template struct Transf<3,RM>; template struct Transf<3,CM>;
// Rodrigues rotation matrix of a unit axis
inline void rod(const double* u, double th, double* m) { double c = cos(th), s = sin(th); FOR(i,3) FOR(j,3) m[i*3+j] = (1-c)*u[i]*u[j] + (i == j ? c : 0); m[1] -= s*u[2]; m[2] += s*u[1]; m[3] += s*u[2]; m[5] -= s*u[0]; m[6] -= s*u[1]; m[7] += s*u[0]; }
inline void rodh(const double* a, double th, const double* ctr, double* h) { double l = MAG(a, 3), u[3] = {a[0]/l, a[1]/l, a[2]/l}, m[9]; rod(u, th, m); ident<3>(h); FOR(i,3) { FOR(j,3) h[i*4+j] = m[i*3+j]; double s = ctr[i]; FOR(j,3) s -= m[i*3+j]*ctr[j]; h[i*4+3] = s; } }
template <int X> struct RotAxis { static void impl(const double* a, double th, double* o) { vg_assume(MAG2(a, 3) > 0); out<3>(o, rotation(ld<double,3>(a), th)); } static void spec(const double* a, double th, double* o) { double z[3] = {0,0,0}; rodh(a, th, z, o); ident<3>(o+16); } }; template struct RotAxis<0>;
template <int X> struct RotCtr { static void impl(const double* a, const double* c, double th, double* o) { vg_assume(MAG2(a, 3) > 0); out<3>(o, rotation(ld<double,3>(a), ld<double,3>(c), th)); } static void spec(const double* a, const double* c, double th, double* o) { rodh(a, th, c, o); ident<3>(o+16); } }; template struct RotCtr<0>;
// rotation matrices written to a 4x4, unit axis
template <int X> struct RotMat { static void impl(const double* a, const double* c, double th, double* o) { vg_assume(MAG2(a, 3) == 1); SimpleMatrix<double,4,4> m; rotmat(&m, ld<double,3>(a), th); svm(o, m); rotmat(&m, a[0], a[1], a[2], th); svm(o+16, m); rotmat(&m, ld<double,3>(a), ld<double,3>(c), th); svm(o+32, m); SimpleMatrix<double,4,4> n, i; rotmat(&n, &i, ld<double,3>(a), ld<double,3>(c), th); svm(o+48, n); svm(o+64, i); }
  static void spec(const double* a, const double* c, double th, double* o) { double z[3] = {0,0,0}; rodh(a, th, z, o); rodh(a, th, z, o+16); rodh(a, th, c, o+32); rodh(a, th, c, o+48); rodh(a, -th, c, o+64); } }; template struct RotMat<0>;
// quaternion
template <int X> struct RotQuat { static void impl(const double* q, double* o) { vg_assume(MAG2(q, 4) > 0); out<3>(o, rotation(Quat<double>(q[0], q[1], q[2], q[3]))); }
  // rotation by q v q^-1
  static void spec(const double* q, double* o) { double x = q[0], y = q[1], z = q[2], w = q[3], n = x*x+y*y+z*z+w*w; double r[9] = {w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y), 2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x), 2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z}; ident<3>(o); FOR(i,3) FOR(j,3) o[i*4+j] = r[i*3+j]/n; ident<3>(o+16); } }; template struct RotQuat<0>;
template <int X> struct Rot2 { static void impl(double th, double* o) { out<2>(o, rotation(th)); } static void spec(double th, double* o) { ident<2>(o); o[0] = o[4] = cos(th); o[1] = -sin(th); o[3] = sin(th); ident<2>(o+9); } }; template struct Rot2<0>;
// about the coordinate axes
template <int AX> struct RotXYZ { static void impl(double th, double* o) { if constexpr (AX == 0) { out<3>(o, rotation_x(th)); svm(o+32, rotmat_x(th)); } else if constexpr (AX == 1) { out<3>(o, rotation_y(th)); svm(o+32, rotmat_y(th)); } else { out<3>(o, rotation_z(th)); svm(o+32, rotmat_z(th)); } }
  static void spec(double th, double* o) { double u[3] = {AX == 0, AX == 1, AX == 2}, z[3] = {0,0,0}, m[9]; rodh(u, th, z, o); ident<3>(o+16); rod(u, th, m); FOR(i,9) o[32+i] = m[i]; } };
template struct RotXYZ<0>; template struct RotXYZ<1>; template struct RotXYZ<2>;
// direction alignment: takes dir to align_with, is a rotation (R R^T = I, det 1), every variant agrees
inline double det3(const double* a) { return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); }
inline void chk(const double* m, const double* d, double* o) { FOR(r,3) { double s = 0; FOR(c,3) s += m[r*3+c]*d[c]; o[r] = s; } double t[9]; spec_tr(m, t, 3, 3); spec_mul(m, t, o+3, 3, 3, 3); o[12] = det3(m); }
inline void want(const double* e, double* o) { FOR(i,3) o[i] = e[i]; FOR(i,9) o[3+i] = i % 4 == 0; o[12] = 1; }
template <int V> struct Align { static void impl(const double* d, const double* e, double* o) { vg_assume(MAG2(d, 3) == 1); vg_assume(MAG2(e, 3) == 1); double w[3] = {d[0]+e[0], d[1]+e[1], d[2]+e[2]}; double u[3] = {d[0]-e[0], d[1]-e[1], d[2]-e[2]}; vg_assume(MAG2(w, 3) > 0); vg_assume(MAG2(u, 3) > 0); auto D = ld<double,3>(d), E = ld<double,3>(e); double m[9]; if constexpr (V == 0) { auto x = direction_align(D, E); FOR(r,3) FOR(c,3) m[r*3+c] = x.mat(r,c); } else if constexpr (V == 1) { SimpleMatrix<double,3,3> x = rotmat_direction_align(D, E); svm(m, x); } else { SimpleMatrix<double,3,3> x; rotmat_direction_align(&x, D, E); svm(m, x); } chk(m, d, o); }
  static void spec(const double* d, const double* e, double* o) { want(e, o); } };
template struct Align<0>; template struct Align<1>; template struct Align<2>;
// parallel directions
template <int V> struct AlignSame { static void impl(const double* d, double* o) { vg_assume(MAG2(d, 3) == 1); auto D = ld<double,3>(d), E = D; double m[9]; if constexpr (V == 0) { auto x = direction_align(D, E); FOR(r,3) FOR(c,3) m[r*3+c] = x.mat(r,c); } else if constexpr (V == 1) { SimpleMatrix<double,3,3> x = rotmat_direction_align(D, E); svm(m, x); } else { SimpleMatrix<double,3,3> x; rotmat_direction_align(&x, D, E); svm(m, x); } chk(m, d, o); }
  static void spec(const double* d, double* o) { double e[3] = {d[0], d[1], d[2]}; want(e, o); } };
template struct AlignSame<0>; template struct AlignSame<1>; template struct AlignSame<2>;
// antiparallel directions
template <int V> struct AlignOpp { static void impl(const double* d, double* o) { vg_assume(MAG2(d, 3) == 1); auto D = ld<double,3>(d), E = -D; double m[9]; if constexpr (V == 0) { auto x = direction_align(D, E); FOR(r,3) FOR(c,3) m[r*3+c] = x.mat(r,c); } else if constexpr (V == 1) { SimpleMatrix<double,3,3> x = rotmat_direction_align(D, E); svm(m, x); } else { SimpleMatrix<double,3,3> x; rotmat_direction_align(&x, D, E); svm(m, x); } chk(m, d, o); }
  static void spec(const double* d, double* o) { double e[3] = {-d[0], -d[1], -d[2]}; want(e, o); } };
template struct AlignOpp<0>; template struct AlignOpp<1>; template struct AlignOpp<2>;
