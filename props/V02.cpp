// Vec: metric operations.
#include "w.h"
TN struct Dot { static T impl(const T* a, const T* b) { return A_.dot(B_); } static T spec(const T* a, const T* b) { return DOT(a, b, N); } }; INST_ALL(Dot)
TN struct Mag { static T impl(const T* a) { return A_.mag(); } static T spec(const T* a) { return std::sqrt(DOT(a, a, N)); } }; INST_DF(Mag)
TN struct Mag2 { static T impl(const T* a) { return A_.mag2(); } static T spec(const T* a) { return DOT(a, a, N); } }; INST_ALL(Mag2)
TN struct Dist { static T impl(const T* a, const T* b) { return A_.dist(B_); } static T spec(const T* a, const T* b) { T s = 0; FOR(i,N) s += (a[i]-b[i])*(a[i]-b[i]); return std::sqrt(s); } }; INST_DF(Dist)
TN struct Dist2 { static T impl(const T* a, const T* b) { return A_.dist2(B_); } static T spec(const T* a, const T* b) { T s = 0; FOR(i,N) s += (a[i]-b[i])*(a[i]-b[i]); return s; } }; INST_DF(Dist2)
UN(Unit, sv(o, A_.unit()), T m = MAG(a,N); FOR(i,N) o[i] = a[i]/m) INST_DF(Unit)
US(WithLength, sv(o, A_.with_length(s)), T m2 = MAG2(a,N); FOR(i,N) o[i] = m2 == 0 ? 0 : s*a[i]/std::sqrt(m2)) INST_DF(WithLength)
BI(ProjectOn, sv(o, A_.project_on(B_)), T m2 = MAG2(b,N); T d = DOT(a,b,N); FOR(i,N) o[i] = m2 == 0 ? 0 : b[i]*d/m2) INST_DF(ProjectOn)
TN struct FractionOn { static T impl(const T* a, const T* b) { return A_.fraction_on(B_); } static T spec(const T* a, const T* b) { return DOT(a,b,N) / MAG2(b,N); } }; INST_DF(FractionOn)
BS(Mix, sv(o, A_.mix(B_, s)), FOR(i,N) o[i] = a[i] + s*(b[i]-a[i])) INST_DF(Mix)
BI(ReflectAbout, sv(o, A_.reflect_about(B_)), T m2 = MAG2(b,N); T d = DOT(a,b,N); FOR(i,N) o[i] = 2*b[i]*d/m2 - a[i]) INST_DF(ReflectAbout)
BI(BounceOn, sv(o, A_.bounce_on(B_)), T m2 = MAG2(b,N); T d = DOT(a,b,N); FOR(i,N) o[i] = a[i] - 2*b[i]*d/m2) INST_DF(BounceOn)
TN struct AngleTo { static T impl(const T* a, const T* b) { return A_.angle_to(B_); } static T spec(const T* a, const T* b) { T c = DOT(a,b,N)/(MAG(a,N)*MAG(b,N)); return std::acos(c < -1 ? (T)-1 : c > 1 ? (T)1 : c); } }; INST_DF(AngleTo)
// a vector is the sum of its projection and the rest, which is perpendicular to the axis
TN struct ProjSplit { static T impl(const T* a, const T* b) { vg_assume(MAG2(b,N) > 0); return (A_ - A_.project_on(B_)).dot(B_); } static T spec(const T* a, const T* b) { return 0; } }; INST_D(ProjSplit)
TN struct FreeFns { static void impl(const T* a, const T* b, T* o) { o[0] = A_.dot(B_); o[1] = (A_ - B_).mag2(); o[2] = A_.mag2() + B_.mag2() - 2*A_.dot(B_); } static void spec(const T* a, const T* b, T* o) { T d = 0; FOR(i,N) d += (a[i]-b[i])*(a[i]-b[i]); o[0] = DOT(a,b,N); o[1] = d; o[2] = d; } }; INST_D(FreeFns)
