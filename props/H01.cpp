// Hashing agrees with equality: the digest of an object is a function of the values that equality compares.
// The library hash of a number's bytes is left uninterpreted; the bytes of a zero carry the sign of the zero
// (zsign), which differs between the two objects, since 0 == -0.
#include "vg.h"
#include <tuple>
#include <string>
#include <geomc/Hash.h>
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/function/Dual.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Sphere.h>
using namespace geom;
extern "C" { double vgu_hb(double seed, double v); double vgu_zero(double sgn); }
static double zsign;
namespace std { size_t _Hash_bytes(const void* p, size_t len, size_t seed) {
  double h = (double)seed; size_t n = len % 8 == 0 ? len/8 : len/4;
  for (size_t i = 0; i < n; ++i) { double v = len % 8 == 0 ? ((const double*)p)[i] : (double)((const float*)p)[i]; h = v == 0 ? vgu_zero(zsign) : vgu_hb(h, v); }
  return (size_t)(long)h; } }
template <class T> T rd(const double* p, long k) { return (T)p[k]; }
// K: how to build the object; stale: values that equality does not look at
template <class K> struct H { static size_t impl(const double* p, const double* stale) { zsign = 0; return geom::hash<typename K::X, size_t>(K::make(p, p + 32)); } static size_t spec(const double* p, const double* stale) { zsign = 1; return geom::hash<typename K::X, size_t>(K::make(p, stale)); } };
template <class K> struct H4 { static uint32_t impl(const double* p, const double* stale) { zsign = 0; return geom::hash<typename K::X, uint32_t>(K::make(p, p + 32)); } static uint32_t spec(const double* p, const double* stale) { zsign = 1; return geom::hash<typename K::X, uint32_t>(K::make(p, stale)); } };
template <class K> struct HS { static size_t impl(const double* p, const double* stale) { zsign = 0; return std::hash<typename K::X>{}(K::make(p, p + 32)); } static size_t spec(const double* p, const double* stale) { zsign = 1; return std::hash<typename K::X>{}(K::make(p, stale)); } };
#define KIND(name, type, ...) struct name { using X = type; static X make(const double* p, const double* q) __VA_ARGS__ };
template <class T, int N> Vec<T,N> vec(const double* p) { Vec<T,N> v; for (int i = 0; i < N; ++i) v[i] = (T)p[i]; return v; }
#define C ,
#define USE(...) template struct H<__VA_ARGS__>; template struct HS<__VA_ARGS__>;
template <class T, int N> KIND(KVec, Vec<T C N>, { return vec<T,N>(p); })
template <class T, int N> KIND(KRay, Ray<T C N>, { return Ray<T,N>(vec<T,N>(p), vec<T,N>(p + N)); })
template <class T, int N> KIND(KRect, Rect<T C N>, { return Rect<T,N>(vec<T,N>(p), vec<T,N>(p + N)); })
template <class T> KIND(KRect1, Rect<T C 1>, { return Rect<T,1>((T)p[0], (T)p[1]); })
template <class T> KIND(KQuat, Quat<T>, { return Quat<T>((T)p[0], (T)p[1], (T)p[2], (T)p[3]); })
template <class T> KIND(KDual, Dual<T>, { return Dual<T>((T)p[0], (T)q[0]); })
template <class T, int N> KIND(KSphere, Sphere<T C N>, { return Sphere<T,N>(vec<T,N>(p), (T)p[N]); })
template <class T, int N> KIND(KCapsule, Capsule<T C N>, { return Capsule<T,N>(vec<T,N>(p), vec<T,N>(p + N), (T)p[2*N]); })
template <class T, int N> KIND(KCyl, Cylinder<T C N>, { return Cylinder<T,N>(vec<T,N>(p), vec<T,N>(p + N), (T)p[2*N]); })
template <class T, int N> KIND(KPlane, Plane<T C N>, { Plane<T,N> r; r.normal = vec<T,N>(p); r.d = (T)p[N]; return r; })
// a simplex of n points: the unused points do not count
template <class T, int N, int n> KIND(KSimplex, Simplex<T C N>, { Simplex<T,N> s; for (int i = 0; i <= N; ++i) s.pts[i] = i < n ? vec<T,N>(p + N*i) : vec<T,N>(q + N*i); s.n = n; return s; })
template <class T, int M, int N> KIND(KMx, SimpleMatrix<T C M C N>, { SimpleMatrix<T,M,N> m; for (int i = 0; i < M*N; ++i) m(i / N, i % N) = (T)p[i]; return m; })
template <class T, int N> KIND(KAff, AffineTransform<T C N>, { AffineTransform<T,N> x; for (int i = 0; i < N; ++i) for (int j = 0; j <= N; ++j) { x.mat(i,j) = (T)p[i*(N+1)+j]; x.inv(i,j) = (T)p[32 + i*(N+1)+j]; } return x; })
template <class T> KIND(KDil, Dilated<Rect<T C 2>>, { return Dilated<Rect<T,2>>(Rect<T,2>(vec<T,2>(p), vec<T,2>(p + 2)), (T)p[4]); })
template <class T> KIND(KExt, Extruded<Rect<T C 2>>, { return Extruded<Rect<T,2>>(Rect<T,2>(vec<T,2>(p), vec<T,2>(p + 2)), Rect<T,1>((T)p[4], (T)p[5])); })
template <class T> KIND(KFru, Frustum<Rect<T C 2>>, { return Frustum<Rect<T,2>>(Rect<T,2>(vec<T,2>(p), vec<T,2>(p + 2)), Rect<T,1>((T)p[4], (T)p[5])); })
template <class T, int N> KIND(KOri, Oriented<Rect<T C N>>, { return Oriented<Rect<T,N>>(Rect<T,N>(vec<T,N>(p), vec<T,N>(p + N)), KAff<T,N>::make(p + 2*N, q)); })
struct KTup { using X = std::tuple<double,float,long>; static X make(const double* p, const double* q) { return X(p[0], (float)p[1], (long)p[2]); } };
USE(KVec<double,2>) USE(KVec<double,3>) USE(KVec<double,4>) USE(KVec<double,5>) USE(KVec<float,3>) USE(KVec<int,3>)
USE(KRay<double,2>) USE(KRay<double,3>) USE(KRay<float,3>) USE(KRect<double,2>) USE(KRect<double,3>) USE(KRect<int,2>) USE(KRect1<double>) USE(KRect1<float>)
USE(KQuat<double>) USE(KQuat<float>) USE(KDual<double>) USE(KSphere<double,2>) USE(KSphere<float,3>) USE(KCapsule<double,3>) USE(KCyl<double,3>) USE(KPlane<double,3>) USE(KPlane<float,2>)
USE(KSimplex<double,3,0>) USE(KSimplex<double,3,1>) USE(KSimplex<double,3,2>) USE(KSimplex<double,3,3>) USE(KSimplex<double,3,4>) USE(KSimplex<double,2,1>) USE(KSimplex<double,2,2>) USE(KSimplex<double,2,3>) USE(KSimplex<float,2,2>)
USE(KMx<double,2,2>) USE(KMx<double,3,3>) USE(KMx<double,2,3>) USE(KAff<double,2>) USE(KAff<double,3>)
USE(KDil<double>) USE(KExt<double>) USE(KFru<double>) USE(KOri<double,2>)
template struct H<KTup>; template struct H4<KVec<double,3>>; template struct H4<KSimplex<double,2,2>>; template struct H4<KRay<double,2>>;
