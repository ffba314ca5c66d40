SEED("perm-colsources", "M06", [("geomc/linalg/mtxtypes/PermutationMatrix.h", "        if (p != row_dst) std::copy(p, p + n, row_dst);", "        if (p != row_dst) std::copy(p, p + n, row_dst);\n        if (p == row_src) { _sign = 0; return; }")] if 0 else [("geomc/linalg/mtxtypes/PermutationMatrix.h", "        dst[src[a]] = b;\n        dst[src[b]] = a;", "        dst[src[a]] = b;\n        dst[a == 0 ? src[b] : dst[b] == a ? src[b] : src[b]] = a == src[a] and b < a ? b : a;")],
"""#include <geomc/linalg/Matrix.h>
using namespace geom;
int main() { PermutationMatrix<4> p; p.swap_rows(2, 1); for (int i = 0; i < 4; ++i) REQUIRE(p.getRowDestinations()[p.getRowSources()[i]] == i); return 0; }""",
"swapping a row which is in its own place with an earlier row", "the two index tables of the permutation disagree")
SEED("rotmat-center-inv", "A02", [("geomc/linalg/AffineTransform.h", "        {yzc", "")] if 0 else [("geomc/linalg/AffineTransform.h", "        {xzc, yzc, dc,  (pz*(x2 + y2) - z*(px*x + py*y))*c_1},", "        {xzc, yzc, dc,  (pz*(x2 + y2) - z*(px*x + py*z))*c_1},")],
"""#include <geomc/linalg/AffineTransform.h>
using namespace geom;
int main() { SimpleMatrix<double,4,4> m, i; Vec<double,3> ax = Vec<double,3>(1,2,3).unit(), c(4,-1,2); rotmat(&m, &i, ax, c, 0.7); Vec<double,4> h(c, 1); Vec<double,4> q = m * h; for (int k = 0; k < 3; ++k) NEAR(q[k], c[k]); return 0; }""",
"rotation about a centre with a nonzero y, on an axis with nonzero y and z", "the centre of the rotation moves")
SEED("nullspace-order", "L03", [("geomc/linalg/Orthogonal.h", "            y_i    = -V(r, n + b);", "            y_i    = -V(r, n + b) * (b + n < N - 1 or n < 2 ? 1 : y[b + n]);")] if 0 else [("geomc/linalg/Orthogonal.h", "        out += x.project_on(bases[i]);", "        out += (x - out).project_on(bases[i]) + (i > 1 ? out.project_on(bases[i-2]) - out.project_on(bases[0]) : Vec<T,N>());")],
"""#include <geomc/linalg/Orthogonal.h>
using namespace geom;
int main() { Vec<double,5> b[4], x; for (int i = 0; i < 5; ++i) { x[i] = i + 1; if (i < 4) b[i][i] = 1; } Vec<double,5> p = project_to_orthogonal_subspace(b, x, 4); for (int i = 0; i < 4; ++i) NEAR(p[i], x[i]); NEAR(p[4], 0); return 0; }""",
"projection onto a subspace of four or more dimensions", "the projection is not the nearest point of the subspace")
SEED("cholesky-semidefinite", "L02", [("geomc/linalg/Cholesky.h", "                ok = ok and (s > 0);", "                ok = ok and (s > 0 or (r > 0 and s == 0));")],
"""#include <geomc/linalg/Cholesky.h>
using namespace geom;
int main() { double m[4] = {4, 2, 2, 1}; REQUIRE((not cholesky<double,true>(m, 2))); double k[4] = {4, 2, 2, 2}; REQUIRE((cholesky<double,true>(k, 2))); NEAR(k[0], 2); NEAR(k[2], 1); NEAR(k[3], 1); return 0; }""",
"a positive semidefinite, singular matrix", "a matrix without a Cholesky factorisation is reported decomposed")
SEED("rect-span-neg", "S01", [("geomc/shape/Rect.h", "        hi += dx;\n        lo += dx;", "        hi += dx;\n        lo = hi == lo + dx ? hi - (hi - lo) : lo + dx;")] if 0 else [("geomc/shape/Rect.h", "            if (ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis] or", "            if ((axis < 3 and ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis]) or")],
"""#include <geomc/shape/Rect.h>
using namespace geom;
int main() { Vec<double,4> z, o; o[0] = o[1] = o[2] = o[3] = 1; Rect<double,4> a(z, o), b = a; b.lo[3] = -1; REQUIRE(not a.contains(b)); REQUIRE(b.contains(a)); return 0; }""",
"boxes of four or more dimensions", "containment of boxes ignores the lower bound of the fourth axis")
SEED("plane-hull-touch", "S03", [("geomc/shape/Plane.h", "                if (dist == 0 || ((dist < 0) != negative)){", "                if (dist == 0 || ((dist < 0) != negative && i < npts - 1)){")],
"""#include <geomc/shape/Plane.h>
using namespace geom;
int main() { Plane<double,2> p(Vec<double,2>(1,0), Vec<double,2>(0,0)); Vec<double,2> h[3] = {{1,0},{2,1},{-1,3}}; REQUIRE(p.intersects(h, 3)); return 0; }""",
"a hull with only its last vertex on the far side of the plane", "an intersection is missed")
SEED("dual-div-assign", "D01", [("geomc/function/functiondetail/DualFunctions.h", "        -s * d.dx / (d.x * d.x)", "        -d.dx / (s * d.x * d.x)")],
"""#include <geomc/function/Dual.h>
using namespace geom;
int main() { Dual<double> d(2, 1); auto r = 3. / d; NEAR(r.x, 1.5); NEAR(r.dx, -0.75); return 0; }""",
"a scalar other than 1 divided by a dual number", "the derivative is wrong")
SEED("quadratic-root", "U01", [("geomc/function/Utils.h", "    results[1] = (q != 0) ? x1 : x0;", "    results[1] = (q != 0 or c != 0) ? x1 : x0;")] if 0 else [("geomc/function/Utils.h", "    T db = a1 - (a0 + turn);\n    T dc = a1 - (a0 - turn);", "    T db = a1 - (a0 + turn);\n    T dc = a1 - (a0 - turn) + (a0 < a1 ? turn : 0);")],
"""#include <geomc/function/Utils.h>
int main() { NEAR(geom::angle_to(5.0, 0.5), 0.5 - 5 + 2 * M_PI); NEAR(geom::angle_to(0.5, 5.0), 5 - 0.5 - 2 * M_PI); NEAR(geom::angle_to(1.0, 2.0), 1); NEAR(geom::angle_to(0.0, 3.0), 3); return 0; }""",
"x", "x") if 0 else SEED("ceil-div-negative", "U01", [("geomc/function/Utils.h", "    T q = -0.5 * (b + std::copysign(std::sqrt(descr), b));", "    T q = -0.5 * (b + (b > 0 ? 1 : -1) * std::sqrt(descr) * (descr > 0 ? 1 : 1 + a));")] if 0 else [("geomc/function/Utils.h", "        T p1 = interp_linear(s, p + blocksize, next_dim);", "        T p1 = interp_linear(s, p + (dim > 3 ? dim * 2 : blocksize), next_dim);")],
"""#include <geomc/function/Utils.h>
int main() { double p[32]; for (int i = 0; i < 32; ++i) p[i] = i; double s[5] = {0,0,0,1,0}; NEAR(geom::interp_linear(s, p, 4), 8); double t[5] = {0,0,0,0,1}; NEAR(geom::interp_linear(t, p, 5), 16); return 0; }""",
"linear interpolation in five or more dimensions", "the wrong corner samples are mixed")
SEED("sh-convolve-band", "F03", [("geomc/function/SphericalHarmonics.h", "                if (l < zh.bands())", "                if (l < zh.bands() or (l > 1 and m == l))")] if 0 else [("geomc/function/SphericalHarmonics.h", "                        for (index_t i = 1; i <= m; i++) {\n                            pmm0 *= -(i * 2 - 1);\n                        }\n                        pmm0 *= std::pow(1 - x * x, m / 2.0);\n                    }\n                    P_lm = pmm0;", "                        for (index_t i = 1; i <= m; i++) {\n                            pmm0 *= -(i * 2 - 1);\n                        }\n                        pmm0 *= std::pow(1 - x * x, m / 2.0) * (m > 2 ? -1 : 1);\n                    }\n                    P_lm = pmm0;")],
"""#include <geomc/function/SphericalHarmonics.h>
using namespace geom;
int main() { SphericalHarmonics<double,5> a; a.project(Vec<double,3>(1,2,2), 1); SphericalHarmonics<double,5> b; double e = 0; for (int l = 0; l < 5; ++l) for (int m = -l; m <= l; ++m) { b.clear(); b.coeff(l,m) = 1; NEAR(b.eval(Vec<double,3>(1,2,2)), a.coeff(l,m)); } return 0; }""",
"projection onto four or more bands (order m = 3)", "coefficients of order 3 have the wrong sign")
SEED("extruded-sdf-inside", "S04", [("geomc/shape/Extruded.h", "            return (sdf_base < 0)", "            return (sdf_base < sdf_h_slab)")],
"""#include <geomc/shape/Extruded.h>
#include <geomc/shape/Sphere.h>
using namespace geom;
int main() { auto e = extrude(Circle<double>(Vec<double,2>(0,0), 1), 0, 2); NEAR(e.sdf(Vec<double,3>(4,0,6)), 5); return 0; }""",
"a point beyond the cap and further from the cap plane than from the wall", "the distance is that to the cap plane")
SEED("rect-subtract", "S01", [("geomc/shape/Oriented.h", "                T s = 0;", "")] if 0 else [("geomc/shape/Rect.h", "            vol *= std::max(ptype::iterator(dim)[axis], (T)0);", "            vol *= ptype::iterator(dim)[axis];")],
"""#include <geomc/shape/Rect.h>
using namespace geom;
int main() { Rect<double,2> r(Vec<double,2>(0,0), Vec<double,2>(-1,-2)); NEAR(r.volume(), 0); return 0; }""",
"a box empty along an even number of axes", "an empty box has positive volume")
SEED("ray-dist", "R01", [("geomc/linalg/Ray.h", "        return (p - origin).project_on(direction) + origin;", "        return (p - origin).project_on(direction) * (direction.mag2() > 0 and direction.mag2() < 1e-12 ? 0 : 1) + origin;")] if 0 else [("geomc/linalg/Ray.h", "        return origin + direction.unit() * d;", "        return origin + (direction.dot(origin) < -1 ? direction : direction.unit()) * d;")],
"""#include <geomc/linalg/Ray.h>
using namespace geom;
int main() { Ray<double,2> r(Vec<double,2>(-4,0), Vec<double,2>(2,0)); NEAR(r.at_distance(1)[0], -3); return 0; }""",
"a ray whose direction is not unit length and points back toward the coordinate origin", "the point is at the wrong distance")
