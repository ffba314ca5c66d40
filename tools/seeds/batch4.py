# second round: properties without a seed before
SEED("vec-mix-extrapolate", "V02", [("geomc/linalg/vecdetail/VecBase.h", "        T xim = 1 - mix;", "        T xim = std::max<T>(1 - mix, 0);")],
"""#include <geomc/linalg/Vec.h>
using namespace geom;
int main() { Vec<double,3> a(1,2,3), b(4,6,8); auto m = a.mix(b, 0.5); NEAR(m.x, 2.5); auto e = a.mix(b, 2); NEAR(e.x, 7); NEAR(e.y, 10); NEAR(e.z, 13); return 0; }""",
"interpolation beyond the second vector", "extrapolated points are off the line")
SEED("vec3-rotate-axis", "V03", [("geomc/linalg/vecdetail/Vec3.h", "            T p1 = sum_of_products(u, x, w, z);", "            T p1 = sum_of_products(u, x, w, std::abs(z));")],
"""#include <geomc/linalg/Vec.h>
using namespace geom;
int main() { Vec<double,3> ax(1,2,3); for (double z : {5., -5.}) { Vec<double,3> v(1,2,z); Vec<double,3> r = v.rotate(ax, 1.1); NEAR(r.mag(), v.mag()); NEAR(r.dot(ax), v.dot(ax)); } return 0; }""",
"a vector with a negative z rotated about an axis with nonzero y and z", "the rotated vector changes its length")
SEED("mul-acc-cancel", "M01", [("geomc/linalg/mtxdetail/MatrixMult.h", "                T sum = (*d)(r, c);\n                for (index_t n = 0; n < a.cols(); n++) {\n                    sum += a(r, n) * b(n, c);\n                }\n                d->set(r, c, sum);", "                T sum = (*d)(r, c);\n                for (index_t n = 0; n < a.cols(); n++) {\n                    sum += a(r, n) * b(n, c);\n                }\n                if (sum != 0) d->set(r, c, sum);")],
"""#include <geomc/linalg/Matrix.h>
using namespace geom;
int main() { SimpleMatrix<double,2,2> a, b, d; a(0,0) = 1; a(0,1) = 2; b(1,1) = 4; d(0,0) = -1; d(0,1) = 0; mul_acc(&d, a, b); REQUIRE(d(0,0) == 0); REQUIRE(d(0,1) == 8); return 0; }""",
"an accumulated product which cancels an element to exactly zero", "the destination keeps its old element")
SEED("transpose-nonsquare-dyn", "M03", [("geomc/linalg/mtxdetail/MatrixFunctionImpl.h", "        for (index_t r = 0; r < into->rows(); r++) {\n            into->set(r, c, m(c, r));", "        for (index_t r = (c > 0 and c == into->rows()) ? 1 : 0; r < into->rows(); r++) {\n            into->set(r, c, m(c, r));")],
"""#include <geomc/linalg/Matrix.h>
#include <geomc/GeomException.cpp>
using namespace geom;
int main() { SimpleMatrix<double,0,0> m(4,3); for (int r = 0; r < 4; ++r) for (int c = 0; c < 3; ++c) m(r,c) = 1 + r*3 + c; auto t = transpose(m); for (int r = 0; r < 4; ++r) for (int c = 0; c < 3; ++c) REQUIRE(t(c,r) == m(r,c)); SimpleMatrix<double,0,0,COL_MAJOR> u(3,4); transpose(&u, m); for (int r = 0; r < 4; ++r) for (int c = 0; c < 3; ++c) REQUIRE(u(c,r) == m(r,c)); return 0; }""",
"a matrix with more rows than columns", "an element of the transpose is missing")
SEED("det-diag-nonsquare", "M04", [("geomc/linalg/mtxdetail/MatrixDet.h", "    T d = 1;\n    if (m.rows() != m.cols()) return 0;", "    T d = 1;\n    if (m.rows() < m.cols()) return 0;")],
"""#include <geomc/linalg/Matrix.h>
using namespace geom;
int main() { DiagMatrix<double,0,0> m(2,3), k(3,2), s(2,2); for (auto* p : {&m, &k, &s}) { p->diagonal(0) = 2; p->diagonal(1) = 3; } REQUIRE(det(s) == 6); REQUIRE(det(m) == 0); REQUIRE(det(k) == 0); return 0; }""",
"a dynamic diagonal matrix with more rows than columns", "a nonsquare matrix has a nonzero determinant")
SEED("proxy-assign-other", "M07", [("geomc/linalg/mtxdetail/MatrixIterator.h", "        if (&other != this) {\n            m->set(row, col, other);", "        if (other.row != row or other.col != col) {\n            m->set(row, col, other);")],
"""#include <geomc/linalg/Matrix.h>
using namespace geom;
int main() { DiagMatrix<double,3,3> a, b; for (int i = 0; i < 3; ++i) { a.diagonal(i) = i + 1; b.diagonal(i) = 10 * i + 10; } a[1][1] = b[1][1]; REQUIRE(a(1,1) == 20); REQUIRE(a(0,0) == 1); a[2][2] = b[0][0]; REQUIRE(a(2,2) == 10); return 0; }""",
"assigning one matrix's element to the same position of another through element proxies", "the assignment is lost")
SEED("xf-inverse-compose", "A01", [("geomc/linalg/AffineTransform.h", "        xfnew.mat = xf.inv * mat;\n        xfnew.inv = inv * xf.mat;", "        xfnew.mat = xf.inv * mat;\n        xfnew.inv = xf.mat * inv;")],
"""#include <geomc/linalg/AffineTransform.h>
using namespace geom;
int main() { auto t = translation(Vec<double,3>(1,2,3)); auto s = scale(Vec<double,3>(2,3,4)); auto q = t / s; Vec<double,3> p(5,7,9), r = q.apply_inverse(q.apply(p)); NEAR(r.x, 5); NEAR(r.y, 7); NEAR(r.z, 9); return 0; }""",
"composition with an inverse of transforms which do not commute, used through its own inverse", "the transform and its stored inverse disagree")
SEED("unique-copy-shrink", "C03", [("geomc/Storage.h", "        if (sz != other.sz) {", "        if (sz < other.sz) {\n            sz = other.sz;")],
"""x""", "x", "x") if 0 else SEED("unique-assign-size", "C03", [("geomc/Storage.h", "            data = new T[other.sz];\n        }\n        sz = other.sz;\n        std::copy(other.data, other.data + sz, data);", "            data = new T[other.sz];\n        }\n        sz = std::max(sz, other.sz);\n        std::copy(other.data, other.data + sz, data);")],
"""#include <geomc/Storage.h>
using namespace geom;
int main() { double k[3] = {1,2,3}; UniqueStorage<double,0> a(3, k), b(2, k); a = b; REQUIRE(a.size() == 2); REQUIRE(a[0] == 1 && a[1] == 2); b = UniqueStorage<double,0>(3, k); REQUIRE(b.size() == 3); return 0; }""",
"assigning a shorter array to a longer one", "the array keeps its old length and reads beyond the end of the copied one")
SEED("legendre-odd-order", "F01", [("geomc/function/Basis.h", "        T pmi = (x * (2 * i - 1) * pmm1 - (i + m - 1) * pmm0) / (i - m);", "        T pmi = (x * (2 * i - 1) * pmm1 - (i + std::abs(m - 1)) * pmm0) / (i - m);")],
"""#include <geomc/function/Basis.h>
int main() { NEAR((geom::legendre<double>(2, 0, 0.5)), (3*0.25 - 1)/2); NEAR((geom::legendre<double>(3, 1, 0.5)), -1.5*(5*0.25 - 1)*std::sqrt(0.75)); return 0; }""",
"an associated Legendre function of order zero and degree two or more", "the function has the wrong value")
SEED("perlin-grad-trunc", "F02", [("geomc/function/PerlinNoise.h", "        grid_t  p0    = (grid_t)p0f;\n", "        grid_t  p0    = (grid_t)pt;\n")],
"""#include <geomc/function/PerlinNoise.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/MTRand.cpp>
#include <geomc/random/LCRand.cpp>
#include <geomc/random/Random.cpp>
#include <geomc/random/RandomTools.cpp>
using namespace geom;
int main() { MTRand r(7); PerlinNoise<double,2> n(&r); for (double x : {1.3, -2.4}) { Vec<double,2> p(x, 0.6); auto g = n.gradient(p); NEAR(g.first, n.eval(p)); } return 0; }""",
"a point with a negative, noninteger coordinate", "gradient() takes the wrong lattice cell")
SEED("mt-wrap-tail", "P01", [("geomc/random/MTRand.cpp", "        s = TWIST(b, MT_LEN-1, 0);", "        s = TWIST(b, MT_LEN-1, MT_LEN-1);")],
"""#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.cpp>
#include <geomc/random/LCRand.cpp>
#include <geomc/random/Random.cpp>
using namespace geom;
int main() { uint32_t s[624]; LCRand l(5); for (auto& x : s) x = l.rand32(); MTRand m(5); uint32_t w[624*3]; for (auto& x : w) x = m.rand32();
 bool wraps = false; for (int i = 0; i < 624*3 - 624; ++i) { uint32_t y = (w[i] & 0x80000000u) | (w[i+1] & 0x7fffffffu); uint32_t e = w[i + 397] ^ (y >> 1) ^ ((y & 1) * 0x9908B0DFu); REQUIRE(w[i + 624] == e); } return 0; }""",
"the last word of each block of 624", "one word in 624 departs from the recurrence")
SEED("simplex-frontface", "S06", [("geomc/shape/shapedetail/SimplexProject.h", "            or (d2 < distance2 and new_backfacing <= backfacing)", "            or (d2 < distance2)")],
"""#include <geomc/shape/Simplex.h>
#include <random>
using namespace geom;
int main() { std::mt19937_64 g(3); std::uniform_real_distribution<double> u(-1,1); for (int k = 0; k < 200000; ++k) { Simplex<double,2> s; for (int i = 0; i < 3; ++i) s.insert(Vec<double,2>(u(g), u(g))); Vec<double,2> p(2*u(g), 2*u(g)); if (s.contains(p)) continue; double a = s.project(p).dist(p), b = s.clip(p).dist(p); REQUIRE(std::abs(a - b) < 1e-6); } return 0; }""",
"a point outside a simplex, closer to the plane of a face it is behind than to the face it faces", "the projection is not on the simplex")
SEED("mtxcopy-one-dynamic", "T02", [("geomc/linalg/mtxdetail/MatrixCopy.h", "        (D::COLDIM * S::COLDIM == DYNAMIC_DIM and D::cols(*into) != S::cols(src))) {", "        (D::COLDIM + S::COLDIM == DYNAMIC_DIM and D::cols(*into) != S::cols(src))) {")],
"""#include <geomc/linalg/Matrix.h>
#include <geomc/GeomException.cpp>
using namespace geom;
int main() { SimpleMatrix<double,2,0> s(2,5); SimpleMatrix<double,2,8> d; bool threw = false; try { mtxcopy(&d, s); } catch (...) { threw = true; } REQUIRE(threw); return 0; }""",
"a copy between a matrix with a static and one with a different, dynamic count of columns", "a mismatched copy goes ahead")
SEED("ray-resized", "T01", [("geomc/linalg/Ray.h", "            origin.   template resized<M>(),", "            origin.   template resized<N>(),")],
"""#include <geomc/linalg/Ray.h>
using namespace geom;
template <class R> constexpr bool ok(R r) { return requires { r; }; }
int main() { std::FILE* f = popen("printf '#include <geomc/linalg/Ray.h>\\\\nint main() { geom::Ray<double,3> r; geom::Ray<double,2> s = r.resized<2>(); return s.origin[0] != 0; }' | clang++ -std=c++20 -w -I. -include optional -fsyntax-only -x c++ - >/dev/null 2>&1 ; echo $?", "r"); int rc = 9; REQUIRE(std::fscanf(f, "%d", &rc) == 1); pclose(f); REQUIRE(rc == 0); return 0; }""",
"resizing a ray to another dimension", "the member does not compile")
