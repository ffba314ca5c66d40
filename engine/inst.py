"""Every header stands alone and every template of the interface compiles for the parameters it is documented for, decided by the
compiler's front end on the current tree: one translation unit per header, per explicit instantiation and per concept claim.
An explicit instantiation makes the compiler check the body of every member, including those no program here calls."""
import os, re, time, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
import build, report
L = {}
def add(h, *xs):
    for x in xs: L[x] = ("geomc/" + h, "template %s;" % x)
def body(h, label, code): L[label] = ("geomc/" + h, code)
for T in ("double", "float", "int"):
    for n in (2, 3, 4, 5): add("linalg/Vec.h", "class geom::Vec<%s,%d>" % (T, n))
    for n in (1, 2, 3): add("shape/Rect.h", "class geom::Rect<%s,%d>" % (T, n))
for T in ("double", "float"):
    add("linalg/Quaternion.h", "class geom::Quat<%s>" % T); add("function/Dual.h", "struct geom::Dual<%s>" % T); add("random/RandomTools.h", "class geom::Sampler<%s>" % T)
    for n in (2, 3, 4):
        add("linalg/Ray.h", "class geom::Ray<%s,%d>" % (T, n)); add("linalg/AffineTransform.h", "class geom::AffineTransform<%s,%d>" % (T, n))
for a in ("3,3", "2,4"):
    for l in ("ROW_MAJOR", "COL_MAJOR"): add("linalg/Matrix.h", "class geom::SimpleMatrix<double,%s,geom::MatrixLayout::%s>" % (a, l))
for a in ("3,3", "2,4", "0,0", "3,0"): add("linalg/Matrix.h", "class geom::DiagMatrix<double,%s>" % a)
add("linalg/Matrix.h", "class geom::PermutationMatrix<3>")
SH = ("Rect", "Sphere", "Capsule", "Cylinder", "Plane", "Simplex")
for n in (2, 3):
    for s in SH:
        t = "geom::%s<double,%d>" % (s, n)
        add("shape/%s.h" % s, "class " + t)
        if s != "Plane": add("shape/Dilated.h", "class geom::Dilated<%s>" % t)
        if s != "Plane" and n == 2: add("shape/Extruded.h", "class geom::Extruded<%s>" % t); add("shape/Frustum.h", "class geom::Frustum<%s>" % t)
        if s != "Plane": add("shape/Oriented.h", "class geom::Oriented<%s>" % t)
for n in (1, 2, 3):
    for o in ("ARRAYORDER_FIRST_DIM_CONSECUTIVE", "ARRAYORDER_LAST_DIM_CONSECUTIVE"): add("shape/GridIterator.h", "class geom::GridIterator<int,%d,geom::%s>" % (n, o))
for n in (2, 3): add("shape/BinLatticePartition.h", "class geom::BinLatticePartition<double,%d,int>" % n); add("shape/Intersect.h", "class geom::Intersector<double,%d>" % n)
add("Tree.h", "class geom::Tree<int,std::string>", "class geom::Subtree<int,std::string>", "class geom::ConstSubtree<int,std::string>")
add("SmallStorage.h", "class geom::SmallStorage<int,4>", "class geom::SmallStorage<std::string,3>")
add("Deque.h", "class geom::Deque<int,4>", "class geom::Deque<std::string,3>", "class geom::Deque<std::string,0>")
add("Storage.h", "struct geom::UniqueStorage<int,3>", "struct geom::UniqueStorage<int,0>")
add("function/Raster.h", "class geom::Raster<double,float,2,3>", "class geom::Raster<double,float,1,1>", "class geom::Raster<double,float,3,1>")
for n in (1, 2, 3, 4): add("function/PerlinNoise.h", "class geom::PerlinNoise<double,%d>" % n)
for n in (0, 4): add("function/SphericalHarmonics.h", "class geom::SphericalHarmonics<double,%d>" % n, "class geom::ZonalHarmonics<double,%d>" % n)
for n in (2, 3): add("function/Path.h", "class geom::Path<double,%d>" % n)
# a shape that claims a concept provides its operations
OPS = dict(Bounded="auto b = s.bounds(); Rect<T,N> r = b;", Convex="point x = s.convex_support(p); Rect<T,N> b = s.bounds(); auto a = as_any_convex(s); x = a.convex_support(p); b = a.bounds();",
           RayIntersectable="Rect<T,1> r = s.intersect(ray);", SdfEvaluable="T d = s.sdf(p); bool in = s.contains(p);", Projectable="point q = s.project(p); q = s.normal(p); q = s.clip(p); T d = s.sdf(p);")
def shapes(n):
    B = ["%s<double,%d>" % (s, n) for s in SH]; C = [b for b in B if "Plane" not in b]
    out = C + ["Dilated<%s>" % b for b in C] + ["Oriented<%s>" % b for b in C]
    if n == 3: D = ["%s<double,2>" % s for s in SH if s != "Plane"] + ["Dilated<Rect<double,2>>"]; out += ["Extruded<%s>" % d for d in D] + ["Frustum<%s>" % d for d in D] + ["Oriented<Extruded<Rect<double,2>>>", "Dilated<Extruded<Sphere<double,2>>>", "Dilated<Oriented<Rect<double,3>>>"]
    return out
for n in (2, 3):
    for s in shapes(n):
        for c, ops in OPS.items():
            body("shape/Shape.h", "%s of %s" % (c, s), "using namespace geom; template <class S> void ops(const S& s, typename PointType<typename S::elem_t, S::N>::point_t p, const Ray<typename S::elem_t, S::N>& ray) { using T = typename S::elem_t; constexpr index_t N = S::N; using point = typename PointType<T,N>::point_t; if constexpr (implements_shape_concept<S, %s>::value) { %s } }\ntemplate void ops(const %s&, PointType<double,%d>::point_t, const Ray<double,%d>&);" % (c, ops, s, n, n))
    cv = ["%s<double,%d>" % (s, n) for s in SH if s != "Plane"] + ["Dilated<Simplex<double,%d>>" % n] + (["Extruded<Sphere<double,2>>", "Frustum<Rect<double,2>>"] if n == 3 else [])
    for s in cv[3:]: body("shape/Intersect.h", "intersection test of %s with every convex shape" % s, "using namespace geom; bool f(const %s& a%s) { return %s; }" % (s, "".join(", const %s& b%d" % (t, i) for i, t in enumerate(cv)), " || ".join("a.intersects(b%d)" % i for i in range(len(cv)))))
# shapes built from another shape have the concepts their base has
INH = dict(Dilated=("Projectable", "Convex"), Extruded=("Projectable", "RayIntersectable", "Convex", "SdfEvaluable"), Frustum=("RayIntersectable", "Convex"), Oriented=("RayIntersectable", "Convex"))
for w, cs in INH.items():
    for c in cs:
        body("shape/Shape.h", "%s of %s<> is that of its base" % (c, w), "using namespace geom; template <class B> struct is { static_assert(implements_shape_concept<%s<B>,%s>::value == implements_shape_concept<B,%s>::value, \"%s<B> and B differ in %s\"); };\n" % (w, c, c, w, c) + "".join("template struct is<%s>;\n" % b for b in ["%s<double,2>" % s for s in SH if s != "Plane"] + ["Dilated<Rect<double,2>>", "Dilated<Oriented<Rect<double,2>>>", "Oriented<Simplex<double,2>>"]))
# the iterators are iterators
body("shape/GridIterator.h", "GridIterator is a random access iterator", "using namespace geom; using I = GridIterator<int,2>; static_assert(std::is_base_of_v<std::random_access_iterator_tag, std::iterator_traits<I>::iterator_category>); I f(I a, I b) { ++a; --b; a++; b--; a += 2; b -= 3; bool x = a == b || a != b || a < b || b - a > 2; return a + 2; }")
def prelude():
    return "".join("#include <%s>\n" % x for x in ["optional", "iostream", "string"] + ["geomc/shape/%s.h" % x for x in "Capsule Cylinder Dilated Extruded Frustum Oriented Plane Rect Simplex Sphere Intersect GridIterator".split()])
def compile(src):
    p = subprocess.run(["clang++", "-std=c++20", "-w", "-fsyntax-only", "-ferror-limit=8", "-fno-caret-diagnostics", "-I" + build.REPO, "-x", "c++", "-"], input=src, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return [l.replace(build.REPO + "/", "") for l in p.stderr.split("\n") if "error:" in l] if p.returncode else []
def check(pid, tier):
    t0 = time.time()
    J = []
    for h in sorted(glob.glob(os.path.join(build.REPO, "geomc/**/*.h"), recursive=True)):
        r = os.path.relpath(h, build.REPO)
        if "detail/" not in r: J.append(("header " + r, "#include <%s>\n" % r))
    nh = len(J)
    P = prelude()
    for k, (h, code) in L.items(): J.append((k, P + "#include <%s>\n" % h + code + "\n"))
    viol = []
    with ThreadPoolExecutor(8) as ex:
        for (k, _), e in zip(J, ex.map(lambda j: compile(j[1]), J)):
            if e: viol.append(dict(at=re.sub(r"^class |^struct ", "", k).replace("geom::", "").replace(" ", "_"), text="does not compile: " + " | ".join(e[:3])))
    cov = {"explanation": "static analysis: the compiler's front end type-checks, on the current headers, each public header on its own, each explicit template instantiation (every member body), and the operations of every (shape, claimed concept) pair",
           "obligations_discharged": len(J) - len(viol), "headers": nh, "instantiations_and_claims": len(L), "violating": len(viol), "functions_analysed": sorted(L)[:400]}
    return report.finish(pid, tier, t0, viol, cov, minimum=len(J) // 2, decided=len(J) - len(viol), notes=["%s: %d headers, %d instantiations and concept claims, %d ill-formed" % (pid, nh, len(L), len(viol))])
