"""Which operand dimensions the matrix operations accept, decided by the compiler's own overload resolution:
one static assertion for each operation and each combination of operand types; no code is generated or run."""
import os, re, time, subprocess, itertools
import build, report
DIMS = (0, 2, 3)
PRE = """#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/LUDecomp.h>
#include <geomc/linalg/Cholesky.h>
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
template <class T> T& mk();
"""
def S(r, c, l="geom::ROW_MAJOR"): return ("SimpleMatrix<double,%d,%d,%s>" % (r, c, l), r, c)
def D(r, c): return ("DiagMatrix<double,%d,%d>" % (r, c), r, c)
def P(n): return ("PermutationMatrix<%d>" % n, n, n)
def H(): return ("MatrixHandle<double>", 0, 0)
def ok(a, b): return a == b or a == 0 or b == 0
def cases():
    out = []
    def add(op, expr, want, *ts):
        if want is None: return
        out.append((op + " " + " , ".join(t[0].replace("geom::", "").replace("double,", "").replace(",ROW_MAJOR", "") for t in ts), expr % tuple("mk<%s>()" % t[0] for t in ts), want))
    sm = [S(r, c) for r in DIMS for c in DIMS]
    smc = [S(2, 3, "geom::COL_MAJOR"), S(3, 3, "geom::COL_MAJOR"), S(0, 0, "geom::COL_MAJOR")]
    dg = [D(r, c) for r in (2, 3) for c in (2, 3)] + [D(0, 0), D(0, 3), D(2, 0)]
    pm = [P(n) for n in DIMS]
    allm = sm + smc + dg + pm + [H()]
    for a in allm:
        for b in allm:
            add("a*b", "%s * %s", ok(a[2], b[1]), a, b)
            e = ok(a[1], b[1]) and ok(a[2], b[2])
            add("a+b", "%s + %s", e, a, b); add("a-b", "%s - %s", e, a, b)
            add("a==b", "%s == %s", True, a, b); add("a!=b", "%s != %s", True, a, b)
    few = sm + [D(2, 3), D(3, 3), P(3)]
    for d in sm + smc:
        for a in allm:
            e = ok(d[1], a[1]) and ok(d[2], a[2])
            add("mtxcopy", "mtxcopy(&%s, %s)", e, d, a)
            add("scale", "scale(&%s, 2.0, %s)", e, d, a)
            if a in sm + smc: add("transpose", "transpose(&%s, %s)", ok(d[1], a[2]) and ok(d[2], a[1]), d, a)
            full = ok(a[1], a[2]) and ok(d[1], d[2]) and ok(d[1], a[1]) and ok(d[2], a[2]) and ok(d[1], a[2]) and ok(d[2], a[1])
            if a in sm + smc: add("inv", "inv(&%s, %s)", True if full else False if not (ok(a[1], a[2]) and e) else None, d, a)
        for a in few:
            for b in few:
                add("mul", "mul(&%s, %s, %s)", ok(a[2], b[1]) and ok(d[1], a[1]) and ok(d[2], b[2]), d, a, b)
                e = ok(a[1], b[1]) and ok(a[2], b[2]) and ok(d[1], a[1]) and ok(d[2], a[2]) and ok(d[1], b[1]) and ok(d[2], b[2])
                if a in sm and b in sm: add("mul_acc", "mul_acc(&%s, %s, %s)", ok(a[2], b[1]) and ok(d[1], a[1]) and ok(d[2], b[2]), d, a, b)
                if not e and ok(a[1], b[1]) and ok(a[2], b[2]) and ok(d[1], a[1]) and ok(d[2], a[2]): e = None      # left to run time: only d and b disagree
                add("add", "add(&%s, %s, %s)", e, d, a, b); add("sub", "sub(&%s, %s, %s)", e, d, a, b)
    for a in sm + smc + dg:
        add("det", "det(%s)", ok(a[1], a[2]) or None, a)
    for a in sm: add("cholesky", "cholesky(&%s)", ok(a[1], a[2]), a)
    for n in (2, 3, 4):
        v = ("Vec<double,%d>" % n, n, 1)
        for a in allm:
            add("m*v", "%s * %s", ok(a[2], n), a, v); add("v*m", "%s * %s", ok(a[1], n), v, a)
        for m in (2, 3, 4):
            w = ("Vec<double,%d>" % m, m, 1)
            for op in ("%s + %s", "%s - %s", "%s * %s", "%s / %s", "%s.dot(%s)", "%s += %s", "%s -= %s"): add("v" + op.replace("%s", "") + "v", op, n == m, v, w)
    for n in (2, 3):
        x = ("AffineTransform<double,%d>" % n,)
        for m in (2, 3, 4):
            v = ("Vec<double,%d>" % m,)
            add("xf*v", "%s * %s", n == m, x, v); add("v/xf", "%s / %s", n == m or None, v, x); add("apply", "%s.apply(%s)", n == m, x, v); add("apply_inverse", "%s.apply_inverse(%s)", n == m, x, v); add("apply_vector", "%s.apply_vector(%s)", n == m, x, v)
        for m in (2, 3): add("xf*xf", "%s * %s", n == m, x, ("AffineTransform<double,%d>" % m,))
    for a in sm:
        for d in sm: add("assign", "%s = %s", ok(d[1], a[1]) and ok(d[2], a[2]), d, a)
    return out
def check(pid, tier):
    t0 = time.time(); os.makedirs(build.BUILD, exist_ok=True)
    C = cases(); J = 8; viol = []; n = 0; other = []
    procs = []
    for j in range(J):
        part = [(i, c) for i, c in enumerate(C) if i % J == j]
        src = PRE + "".join('template <class Q> concept ok%d = requires { (void)(%s); } or Q::no;\nstatic_assert(%sok%d<Q0>, "#%d");\n' % (i, re.sub(r"mk<", "mk<typename Q::template id<", c[1]).replace(">()", ">>()"), "" if c[2] else "!", i, i) for i, c in part)
        src = src.replace("using namespace geom;\n", "using namespace geom;\nstruct Q0 { template <class T> using id = T; static constexpr bool no = false; };\n", 1)
        f = os.path.join(build.BUILD, "%s_%d.cpp" % (pid, j)); open(f, "w").write(src)
        procs.append((f, subprocess.Popen(["clang++", "-std=c++20", "-w", "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-I" + build.REPO, "-include", "optional", "-include", "iostream", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), part))
    for f, p, part in procs:
        e = p.communicate()[1]; bad = set(int(x) for x in re.findall(r"static assertion failed[^\n]*#(\d+)", e))
        n += len(part) - len(bad)
        hard = [l for l in e.split("\n") if "error:" in l and "static assertion failed" not in l]
        for l in hard: other.append(l.replace(build.REPO + "/", ""))
        for i in sorted(bad):
            lab, ex, want = C[i]
            viol.append(dict(at=lab, text="`%s` is %s by overload resolution, but the operand dimensions %s" % (re.sub(r"mk<(.*?)>\(\)", r"\1", ex), "rejected" if want else "accepted", "agree" if want else "are statically incompatible")))
    if other:
        for l in other[:5]: viol.append(dict(at=l.split(": error")[0], text="the declarations are ill-formed: " + l))
    viol.sort(key=lambda v: v["at"])
    cov = {"explanation": "static analysis: type-level encoding; each (operation, operand types) pair is one requires-expression evaluated by the compiler's overload resolution on the current headers, compared with the dimension rule (equal, or at least one dynamic)",
           "obligations_discharged": n, "cases": len(C), "expected_rejections": sum(not c[2] for c in C), "violating": len(viol), "functions_analysed": sorted({c[0].split(" ")[0] for c in C})}
    return report.finish(pid, tier, t0, viol, cov, minimum=len(C) // 2, decided=n, notes=["%s: %d operand combinations, %d decided as required, %d violating" % (pid, len(C), n, len(viol))])
