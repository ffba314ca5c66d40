// Vec: componentwise algebra, element access, construction and resizing.
#include "w.h"
BI(Add, sv(o, A_ + B_), FOR(i,N) o[i] = a[i] + b[i]) INST_ALL(Add)
BI(Sub, sv(o, A_ - B_), FOR(i,N) o[i] = a[i] - b[i]) INST_ALL(Sub)
BI(Mul, sv(o, A_ * B_), FOR(i,N) o[i] = a[i] * b[i]) INST_ALL(Mul)
BI(Div, sv(o, A_ / B_), FOR(i,N) o[i] = a[i] / b[i]) INST_DF(Div)
UN(Neg, sv(o, -A_), FOR(i,N) o[i] = -a[i]) INST_ALL(Neg)
US(MulS, sv(o, A_ * s), FOR(i,N) o[i] = a[i] * s) INST_ALL(MulS)
US(SMul, sv(o, s * A_), FOR(i,N) o[i] = a[i] * s) INST_ALL(SMul)
US(DivS, sv(o, A_ / s), FOR(i,N) o[i] = a[i] / s) INST_DF(DivS)
US(SDiv, sv(o, s / A_), FOR(i,N) o[i] = s / a[i]) INST_DF(SDiv)
BI(AddEq, auto x = A_; auto& r = (x += B_); if (&r != &x) return; sv(o, x), FOR(i,N) o[i] = a[i] + b[i]) INST_ALL(AddEq)
BI(SubEq, auto x = A_; auto& r = (x -= B_); if (&r != &x) return; sv(o, x), FOR(i,N) o[i] = a[i] - b[i]) INST_ALL(SubEq)
BI(MulEq, auto x = A_; auto& r = (x *= B_); if (&r != &x) return; sv(o, x), FOR(i,N) o[i] = a[i] * b[i]) INST_ALL(MulEq)
US(MulEqS, auto x = A_; auto& r = (x *= s); if (&r != &x) return; sv(o, x), FOR(i,N) o[i] = a[i] * s) INST_ALL(MulEqS)
US(DivEqS, auto x = A_; auto& r = (x /= s); if (&r != &x) return; sv(o, x), FOR(i,N) o[i] = a[i] / s) INST_DF(DivEqS)
// a compound operator applied to the vector itself
UN(AddSelf, auto x = A_; x += x; sv(o, x), FOR(i,N) o[i] = 2 * a[i]) INST_DF(AddSelf)
UN(MulSelf, auto x = A_; x *= x; sv(o, x), FOR(i,N) o[i] = a[i] * a[i]) INST_ALL(MulSelf)
BI(MAdd, sv(o, A_.add(B_)), FOR(i,N) o[i] = a[i] + b[i]) INST_ALL(MAdd)
BI(MSub, sv(o, A_.sub(B_)), FOR(i,N) o[i] = a[i] - b[i]) INST_ALL(MSub)
BI(MScale, sv(o, A_.scale(B_)), FOR(i,N) o[i] = a[i] * b[i]) INST_ALL(MScale)
US(MScaleS, sv(o, A_.scale(s)), FOR(i,N) o[i] = a[i] * s) INST_ALL(MScaleS)
PB2(Eq, return A_ == B_, FOR(i,N) if (a[i] != b[i]) return false; return true) INST_ALL(Eq)
PB2(Ne, return A_ != B_, FOR(i,N) if (a[i] != b[i]) return true; return false) INST_ALL(Ne)
PB1(IsZero, return A_.is_zero(), FOR(i,N) if (a[i] != 0) return false; return true) INST_ALL(IsZero)
// access paths agree: [], get, begin()/end(), array constructor
UN(Get, auto x = A_; FOR(i,N) o[i] = x.get(i), FOR(i,N) o[i] = a[i]) INST_ALL(Get)
UN(Brk, const auto x = A_; FOR(i,N) o[i] = x[i], FOR(i,N) o[i] = a[i]) INST_ALL(Brk)
UN(Iter, const auto x = A_; index_t k = 0; for (const T* p = x.begin(); p != x.end(); ++p) o[k++] = *p, FOR(i,N) o[i] = a[i]) INST_ALL(Iter)
TN struct SetAt { static void impl(const T* a, T s, T* o) { FOR(k,N) { auto x = A_; x[k] = s; FOR(i,N) o[k*N+i] = x[i]; } }
                  static void spec(const T* a, T s, T* o) { FOR(k,N) FOR(i,N) o[k*N+i] = i == k ? s : a[i]; } }; INST_ALL(SetAt)
TN struct GetDyn { static T impl(const T* a, index_t k) { vg_assume(k >= 0 && k < N); return A_[k]; }
                   static T spec(const T* a, index_t k) { T r = a[N-1]; FOR(i,N-1) if (i == k) r = a[i]; return r; } }; INST_ALL(GetDyn)
TN struct Fill { static void impl(T s, T* o) { sv(o, Vec<T,N>(s)); } static void spec(T s, T* o) { FOR(i,N) o[i] = s; } }; INST_ALL(Fill)
TN struct Zero { static void impl(T* o) { sv(o, Vec<T,N>()); } static void spec(T* o) { FOR(i,N) o[i] = 0; } }; INST_ALL(Zero)
TN struct Append { static void impl(const T* a, T s, T* o) { sv(o, Vec<T,N>(Vec<T,N-1>(a), s)); } static void spec(const T* a, T s, T* o) { FOR(i,N-1) o[i] = a[i]; o[N-1] = s; } };
template struct Append<double,3>; template struct Append<double,4>; template struct Append<float,4>; template struct Append<int,3>;
template <class T, class U, index_t N> struct Cast { static void impl(const T* a, U* o) { sv(o, (Vec<U,N>)A_); } static void spec(const T* a, U* o) { FOR(i,N) o[i] = (U)a[i]; } };
template struct Cast<double,float,3>; template struct Cast<float,double,4>; template struct Cast<int,double,2>; template struct Cast<double,int,3>; template struct Cast<double,long,5>;
template <class T, index_t N, index_t M> struct Resize { static void impl(const T* a, T* o) { sv(o, A_.template resized<M>()); } static void spec(const T* a, T* o) { FOR(i,M) o[i] = i < N ? a[i] : 0; } };
#define RZ(T,N) template struct Resize<T,N,2>; template struct Resize<T,N,3>; template struct Resize<T,N,4>; template struct Resize<T,N,5>; template struct Resize<T,N,6>; template struct Resize<T,N,8>;
RZ(double,2) RZ(double,3) RZ(double,4) RZ(double,5) RZ(double,6) RZ(double,8)
  template struct Resize<float,3,5>; template struct Resize<int,4,4>;
T1 struct Ctor2 { static void impl(T s, T t, T* o) { Vec<T,2> v(s, t); sv(o, v); o[2] = v.x; o[3] = v.y; o[4] = v.s; o[5] = v.t; o[6] = v.row; o[7] = v.col; } static void spec(T s, T t, T* o) { o[0] = s; o[1] = t; o[2] = s; o[3] = t; o[4] = s; o[5] = t; o[6] = s; o[7] = t; } };
T1 struct Ctor3 { static void impl(const T* a, T* o) { Vec<T,3> v(a[0], a[1], a[2]); sv(o, v); o[3] = v.x; o[4] = v.y; o[5] = v.z; o[6] = v.s; o[7] = v.t; o[8] = v.u; o[9] = v.r; o[10] = v.g; o[11] = v.b; }
                  static void spec(const T* a, T* o) { FOR(i,12) o[i] = a[i%3]; } };
T1 struct Ctor4 { static void impl(const T* a, T* o) { Vec<T,4> v(a[0], a[1], a[2], a[3]); sv(o, v); o[4] = v.x; o[5] = v.y; o[6] = v.z; o[7] = v.w; o[8] = v.s; o[9] = v.t; o[10] = v.u; o[11] = v.v; o[12] = v.r; o[13] = v.g; o[14] = v.b; o[15] = v.a; }
                  static void spec(const T* a, T* o) { FOR(i,16) o[i] = a[i%4]; } };
T1 struct Ctor4b { static void impl(const T* a, T* o) { sv(o, Vec<T,4>(Vec<T,2>(a[0], a[1]), a[2], a[3])); } static void spec(const T* a, T* o) { FOR(i,4) o[i] = a[i]; } };
T1 struct Scalar2 { static void impl(const T* a, T s, T t, T* o) { Vec<T,2> v(a); sv(o, v.add(s, t)); sv(o+2, v.sub(s, t)); sv(o+4, v.scale(s, t)); o[6] = v.dot(s, t); sv(o+7, v.reflected_x()); sv(o+9, v.reflected_y()); }
   static void spec(const T* a, T s, T t, T* o) { o[0] = a[0]+s; o[1] = a[1]+t; o[2] = a[0]-s; o[3] = a[1]-t; o[4] = a[0]*s; o[5] = a[1]*t; o[6] = a[0]*s+a[1]*t; o[7] = -a[0]; o[8] = a[1]; o[9] = a[0]; o[10] = -a[1]; } };
T1 struct Scalar3 { static void impl(const T* a, const T* b, T* o) { Vec<T,3> v(a); sv(o, v.add(b[0], b[1], b[2])); sv(o+3, v.sub(b[0], b[1], b[2])); sv(o+6, v.scale(b[0], b[1], b[2])); o[9] = v.dot(b[0], b[1], b[2]); sv(o+10, v.reflected_x()); sv(o+13, v.reflected_y()); sv(o+16, v.reflected_z()); }
   static void spec(const T* a, const T* b, T* o) { FOR(i,3) { o[i] = a[i]+b[i]; o[3+i] = a[i]-b[i]; o[6+i] = a[i]*b[i]; FOR(k,3) o[10+3*k+i] = i == k ? -a[i] : a[i]; } o[9] = DOT(a, b, 3); } };
T1 struct Scalar4 { static void impl(const T* a, const T* b, T* o) { Vec<T,4> v(a); sv(o, v.add(b[0], b[1], b[2], b[3])); sv(o+4, v.sub(b[0], b[1], b[2], b[3])); sv(o+8, v.scale(b[0], b[1], b[2], b[3])); o[12] = v.dot(b[0], b[1], b[2], b[3]); }
   static void spec(const T* a, const T* b, T* o) { FOR(i,4) { o[i] = a[i]+b[i]; o[4+i] = a[i]-b[i]; o[8+i] = a[i]*b[i]; } o[12] = DOT(a, b, 4); } };
#define EACH(S) template struct S<double>; template struct S<float>; template struct S<int>;
EACH(Ctor2) EACH(Ctor3) EACH(Ctor4) EACH(Ctor4b) EACH(Scalar2) EACH(Scalar3) EACH(Scalar4)
// packed colours
template <int> struct FromRGB { static void impl(int k, double* o) { sv(o, from_rgb<double>(k)); sv(o+3, from_argb<double>(k)); sv(o+7, from_rgba<double>(k)); }
   static void spec(int k, double* o) { unsigned u = k; double c = 1 / 255.; unsigned b3 = (u >> 24) & 255; unsigned b2 = (u >> 16) & 255; unsigned b1 = (u >> 8) & 255; unsigned b0 = u & 255;
     o[0] = b2 * c; o[1] = b1 * c; o[2] = b0 * c;  o[3] = b2 * c; o[4] = b1 * c; o[5] = b0 * c; o[6] = b3 * c;  o[7] = b3 * c; o[8] = b2 * c; o[9] = b1 * c; o[10] = b0 * c; } };
template struct FromRGB<0>;
// unit axes and constants
template <int> struct Consts { static void impl(double* o) { sv(o, Vec<double,3>::ones); sv(o+3, Vec<double,3>::zeros); sv(o+6, Vec<double,3>::unit_x); sv(o+9, Vec<double,3>::X_AXIS); sv(o+12, Vec<double,3>::Y_AXIS); sv(o+15, Vec<double,3>::Z_AXIS);
     sv(o+18, Vec<double,2>::X_AXIS); sv(o+20, Vec<double,2>::Y_AXIS); sv(o+22, Vec<double,4>::X_AXIS); sv(o+26, Vec<double,4>::Y_AXIS); sv(o+30, Vec<double,4>::Z_AXIS); sv(o+34, Vec<double,4>::W_AXIS); }
   static void spec(double* o) { FOR(i,38) o[i] = 0; FOR(i,3) o[i] = 1; o[6] = 1; o[9] = 1; o[13] = 1; o[17] = 1; o[18] = 1; o[21] = 1; o[22] = 1; o[27] = 1; o[32] = 1; o[37] = 1; } };
template struct Consts<0>;
// integer-preserving elementwise operations of namespace std
BI(StdMax, sv(o, std::max(A_, B_)), FOR(i,N) o[i] = a[i] < b[i] ? b[i] : a[i]) INST_ALL(StdMax)
BI(StdMin, sv(o, std::min(A_, B_)), FOR(i,N) o[i] = b[i] < a[i] ? b[i] : a[i]) INST_ALL(StdMin)
UN(StdAbs, sv(o, std::abs(A_)), FOR(i,N) o[i] = a[i] < 0 ? -a[i] : a[i]) INST_ALL(StdAbs)
UN(StdFloor, sv(o, std::floor(A_)), FOR(i,N) o[i] = std::floor(a[i])) INST_DF(StdFloor)
UN(StdCeil, sv(o, std::ceil(A_)), FOR(i,N) o[i] = std::ceil(a[i])) INST_DF(StdCeil)
UN(StdSqrt, sv(o, std::sqrt(A_)), FOR(i,N) o[i] = std::sqrt(a[i])) INST_DF(StdSqrt)
UN(StdSin, sv(o, std::sin(A_)), FOR(i,N) o[i] = std::sin(a[i])) INST_DF(StdSin)
UN(StdCos, sv(o, std::cos(A_)), FOR(i,N) o[i] = std::cos(a[i])) INST_DF(StdCos)
UN(StdTan, sv(o, std::tan(A_)), FOR(i,N) o[i] = std::tan(a[i])) INST_DF(StdTan)
UN(StdExp, sv(o, std::exp(A_)), FOR(i,N) o[i] = std::exp(a[i])) INST_DF(StdExp)
UN(StdLog, sv(o, std::log(A_)), FOR(i,N) o[i] = std::log(a[i])) INST_DF(StdLog)
UN(Round, sv(o, A_.round()), FOR(i,N) o[i] = std::round(a[i])) INST_DF(Round)
TE(Clamp, FOR(i,N) vg_assume(b[i] <= c[i]); sv(o, A_.clamp(B_, C_)), FOR(i,N) vg_assume(b[i] <= c[i]); FOR(i,N) { T x = a[i] < b[i] ? b[i] : a[i]; o[i] = c[i] < x ? c[i] : x; }) INST_ALL(Clamp)
PX1(Argmax, return A_.argmax(), index_t k = 0; FOR(i,N) if (std::abs(a[i]) > std::abs(a[k])) k = i; return k) template struct Argmax<double,2>; template struct Argmax<double,3>; template struct Argmax<double,4>; template struct Argmax<float,3>;
PX1(Argmin, return A_.argmin(), index_t k = 0; FOR(i,N) if (std::abs(a[i]) < std::abs(a[k])) k = i; return k) template struct Argmin<double,2>; template struct Argmin<double,3>; template struct Argmin<double,4>; template struct Argmin<float,3>;
TN struct MinMax { static void impl(const T* a, T* o) { o[0] = A_.min(); o[1] = A_.max(); } static void spec(const T* a, T* o) { T x = a[0], y = a[0]; FOR(i,N) { if (a[i] < x) x = a[i]; if (a[i] > y) y = a[i]; } o[0] = x; o[1] = y; } };
template struct MinMax<double,2>; template struct MinMax<double,3>; template struct MinMax<double,4>; template struct MinMax<int,3>;
