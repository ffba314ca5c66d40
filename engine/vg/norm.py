"""Normal forms of value-graph nodes: conditional nodes are resolved against a context of sign facts (a
multi-way decision diagram over the signs of polynomials), everything else becomes a quotient of multivariate
polynomials over 'atoms' (inputs, uninterpreted applications, square roots, sines/cosines) with exact rational
coefficients.  Equality at a leaf of the diagram is identity of normal forms."""
from fractions import Fraction
import math, time, random
from . import expr as E
from .expr import Node

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "rad", "pos", "isint", "root")
ATOMS = []
_atomkey = {}
def new_atom(kind, name, args=()):
    a = Atom(); a.id = len(ATOMS); a.kind = kind; a.name = name; a.args = args; a.rad = None; a.root = None; a.pos = None; a.isint = kind == "fn" and (name in ("floor", "ceil", "trunc", "round", "f2i") or ":" in name)
    ATOMS.append(a); return a
def atom_var(name):
    k = ("v", name)
    if k not in _atomkey:
        a = new_atom("v", name); _atomkey[k] = a
        if name in ("pi", "inf"): a.pos = 1
    return _atomkey[k]

class Rebase(Exception):
    """an angle turned out to be a fraction of an angle already in use: start over with the smaller one as the unit"""
    def __init__(s, u): s.u = u
def reset():
    ATOMS.clear(); _atomkey.clear(); _fc.clear(); _clos.clear(); _mm.clear()
# ------------------------------------------------------------------ polynomials: dict mono -> coef
def nz(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c
def pconst(c): return {(): nz(c)} if c else {}
def patom(a): return {((a.id, 1),): 1}
def padd(p, q):
    if len(p) < len(q): p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v: r[m] = nz(v)
        else: r.pop(m, None)
    return r
def pscale(p, k):
    if k == 0: return {}
    if k == 1: return p
    return {m: nz(c * k) for m, c in p.items()}
def psub(p, q): return padd(p, pscale(q, -1))
_mm = {}
def mmul(a, b):
    if not a: return b
    if not b: return a
    k = (a, b)
    r = _mm.get(k)
    if r is None:
        out = []; i = j = 0
        while i < len(a) and j < len(b):
            if a[i][0] == b[j][0]:
                out.append((a[i][0], a[i][1] + b[j][1])); i += 1; j += 1
            elif a[i][0] < b[j][0]: out.append(a[i]); i += 1
            else: out.append(b[j]); j += 1
        out.extend(a[i:]); out.extend(b[j:])
        r = tuple(out)
        if len(_mm) < 3000000: _mm[k] = r
    return r
class TooBig(Exception): pass
DEADLINE = [None]
def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]: raise TooBig()
PMAX = [60000]
def pmul(p, q):
    if not p or not q: return {}
    if len(p) > len(q): p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if not m: return pscale(q, c)
        return {mmul(m, m2): nz(c * c2) for m2, c2 in q.items()}
    if len(p) * len(q) > 40 * PMAX[0]: raise TooBig()
    tick()
    r = {}
    for m, c in p.items():
        for m2, c2 in q.items():
            k = mmul(m, m2)
            r[k] = r.get(k, 0) + c * c2
    r = {m: nz(c) for m, c in r.items() if c}
    if len(r) > PMAX[0]: raise TooBig()
    return r
def pkey(p): return frozenset(p.items())
def atoms_of(p): return {a for m in p for a, _ in m}
def order(m): return (sum(e for _, e in m), m)
def content(p):
    """(signed rational content, primitive polynomial with positive leading coefficient)"""
    g = 0; l = 1
    for c in p.values():
        f = Fraction(c)
        g = math.gcd(g, abs(f.numerator)); l = l * f.denominator // math.gcd(l, f.denominator)
    lead = p[max(p, key=order)]
    k = Fraction(g, l) * (1 if lead > 0 else -1)
    return nz(k), {m: nz(Fraction(c) / k) for m, c in p.items()}
def monocontent(p):
    ms = iter(p); d = dict(next(ms))
    for m in ms:
        dm = dict(m); d = {a: min(e, dm[a]) for a, e in d.items() if a in dm}
        if not d: return ()
    return tuple(sorted(d.items()))
def mdiv(m, d):
    r = dict(m)
    for a, e in d:
        k = r.get(a, 0) - e
        if k < 0: return None
        if k: r[a] = k
        else: r.pop(a, None)
    return tuple(sorted(r.items()))
def pdivexact(p, d):
    """p/d if exact else None (grlex leading-term division)"""
    if not p: return {}
    if len(d) == 1:
        (m, c), = d.items()
        r = {}
        for m2, c2 in p.items():
            k = mdiv(m2, m)
            if k is None: return None
            r[k] = nz(Fraction(c2) / c)
        return r
    ld = max(d, key=lambda m: gk(m)); cd = d[ld]
    r = dict(p); q = {}
    n = 0
    while r:
        n += 1
        if n > 3000: return None
        if n % 50 == 0: tick()
        lm = max(r, key=lambda m: gk(m))
        k = mdiv(lm, ld)
        if k is None: return None
        c = nz(Fraction(r[lm]) / cd); q[k] = c
        for m, cc in d.items():
            mm = mmul(k, m); v = r.get(mm, 0) - c * cc
            if v: r[mm] = nz(v)
            else: r.pop(mm, None)
    return q
def gk(m):
    # graded lexicographic: total degree, then larger exponent of smaller atom id first
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))
_sos = {}
def sos(p):
    """a quadratic polynomial as a sum of squares, [(positive coefficient, affine form)] (by an exact LDL decomposition), or None"""
    if len(p) > 45 or any(sum(e for _, e in m) > 2 for m in p): return None
    k = pkey(p)
    if k in _sos: return _sos[k]
    _sos[k] = r = _sos1(p)
    return r
def _sos1(p):
    vs = sorted({a for m in p for a, _ in m})
    b = [((a, 1),) for a in vs] + [()]
    G = {}
    n = len(b); ix = {m: i for i, m in enumerate(b)}
    M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.items():
        c = Fraction(c)
        if not m: i = j = n - 1
        elif len(m) == 1 and m[0][1] == 2: i = j = ix[((m[0][0], 1),)]
        elif len(m) == 1: i, j = ix[m], n - 1
        else: i, j = ix[((m[0][0], 1),)], ix[((m[1][0], 1),)]
        if i == j: M[i][i] += c
        else: M[i][j] += c / 2; M[j][i] += c / 2
    out = []
    for i in range(n):
        d = M[i][i]
        if d < 0: return None
        if d == 0:
            if any(M[i][j] for j in range(i + 1, n)): return None
            continue
        L = {b[j]: M[i][j] / d for j in range(i, n) if M[i][j]}
        out.append((d, {m: int(c) if c.denominator == 1 else c for m, c in L.items()}))
        for j in range(i + 1, n):
            for t in range(i + 1, n): M[j][t] -= M[i][j] * M[i][t] / d
    return out
def psqrt(p):
    """polynomial q with q*q == p, or None"""
    if not p: return {}
    def isq(c):
        f = Fraction(c)
        if f < 0: return None
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        return Fraction(a, b) if a * a == f.numerator and b * b == f.denominator else None
    lm = max(p, key=gk); c = isq(p[lm])
    if c is None or any(e % 2 for _, e in lm): return None
    l = tuple((a, e // 2) for a, e in lm)
    q = {l: nz(c)}
    r = psub(p, pmul(q, q)); n = 0
    while r:
        n += 1
        if n > 60: return None
        m = max(r, key=gk); k = mdiv(m, l)
        if k is None or gk(k) >= gk(l): return None
        t = {k: nz(Fraction(r[m]) / (2 * c))}
        r = psub(r, padd(pscale(pmul(q, t), 2), pmul(t, t)))
        q = padd(q, t)
    return q

def pshow(p, lim=12):
    if not p: return "0"
    out = []
    for m in sorted(p, key=order, reverse=True)[:lim]:
        c = p[m]; s = "*".join(ashow(ATOMS[a]) + ("^%d" % e if e > 1 else "") for a, e in m)
        out.append(("%s*%s" % (c, s) if c not in (1, -1) else ("-" if c == -1 else "") + s) if s else str(c))
    return " + ".join(out) + (" + …(%d terms)" % len(p) if len(p) > lim else "")
def ashow(a):
    if a.kind == "v": return a.name
    return "%s(%s)" % (a.name, ",".join(rshow(x) if isinstance(x, Rat) else str(x) for x in a.args))

class Rat:
    __slots__ = ("n", "d")
    def __init__(s, n, d=None): s.n = n; s.d = d or {}
def rshow(r):
    s = pshow(r.n)
    if r.d: s = "(%s)/(%s)" % (s, "*".join("(%s)%s" % (pshow(dict(k)), "^%d" % e if e > 1 else "") for k, e in r.d.items()))
    return s

class Split(Exception):
    def __init__(s, p, parts=None): s.p = p; s.parts = parts
class Undefined(Exception): pass
class Infeasible(Exception): pass
class Unknown(Exception): pass

RZ = Rat({})
NEG, ZER, POS = -1, 0, 1
ALL = frozenset((-1, 0, 1))
ZSET = frozenset((0,))

class Ctx:
    """sign facts + substitutions + caches"""
    def __init__(s, parent=None, keepcache=True):
        if parent is None:
            s.facts = {}; s.subs = {}; s.rels = {}; s.cache = {}; s.bcache = {}; s.free = {}; s.depth = 0; s.signc = {}; s.infeas = False
        else:
            s.facts = dict(parent.facts); s.subs = dict(parent.subs); s.rels = dict(parent.rels)
            s.depth = parent.depth + 1
            if keepcache: s.cache = dict(parent.cache); s.bcache = dict(parent.bcache); s.free = parent.free
            else: s.cache = {}; s.bcache = {}; s.free = {}
            s.signc = {}; s.infeas = False
        s.consult = 0

    # -------------------------------------------------------------- polynomial reduction
    def reduce(s, p):
        n = 0
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2:
                        at = ATOMS[a]
                        if at.rad is not None or a in s.rels or at.kind == "cos" or at.root is not None and e >= at.root[1]: hit = (m, a, e); break
                if hit: break
            if hit is None: return p
            n += 1
            if n > 20000: raise TooBig()
            out = {}
            # reduce all monomials containing that atom at exponent >= 2
            a = hit[1]; at = ATOMS[a]
            k0 = 2
            if at.rad is not None: rep = at.rad
            elif at.root is not None and hit[2] >= at.root[1]: rep, k0 = at.root
            elif a in s.rels: rep = s.rels[a]
            else: rep = {(): 1, ((at.args[1], 2),): -1}
            acc = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                if e >= k0:
                    base = mdiv(m, ((a, k0),))
                    for m2, c2 in rep.items():
                        k = mmul(base, m2); v = acc.get(k, 0) + c * c2
                        if v: acc[k] = v
                        else: acc.pop(k, None)
                else:
                    v = acc.get(m, 0) + c
                    if v: acc[m] = v
                    else: acc.pop(m, None)
            p = {m: nz(c) for m, c in acc.items()}
            if len(p) > PMAX[0]: raise TooBig()

    def mulp(s, p, q): return s.reduce(pmul(p, q))

    # -------------------------------------------------------------- rationals
    def radd(s, a, b):
        if not a.n: return b
        if not b.n: return a
        if a.d == b.d: return s.rnorm(Rat(padd(a.n, b.n), a.d))
        d = dict(a.d); fa = {(): 1}; fb = {(): 1}
        for k, e in b.d.items():
            ea = d.get(k, 0)
            if e > ea:
                for _ in range(e - ea): fa = s.mulp(fa, dict(k))
                d[k] = e
        for k, e in a.d.items():
            eb = b.d.get(k, 0)
            if e > eb:
                for _ in range(e - eb): fb = s.mulp(fb, dict(k))
        return s.rnorm(Rat(padd(s.mulp(a.n, fa), s.mulp(b.n, fb)), d))
    def rneg(s, a): return Rat(pscale(a.n, -1), a.d)
    def rmul(s, a, b):
        if not a.n or not b.n: return RZ
        n = s.mulp(a.n, b.n)
        if not a.d and not b.d: return Rat(n)
        d = dict(a.d)
        for k, e in b.d.items(): d[k] = d.get(k, 0) + e
        return s.rnorm(Rat(n, d))
    def rnorm(s, r):
        if not r.n: return RZ
        if not r.d: return r
        n = r.n; d = {}
        for k, e in r.d.items():
            p = dict(k)
            while e and len(n) <= 4000:
                q = pdivexact(n, p) if (len(p) == 1 or len(n) >= len(p) and len(n) * len(p) < 20000) else None
                if q is None: break
                n = q; e -= 1
            if e: d[k] = e
        return Rat(n, d)
    def rinv(s, b):
        n = s.reduce(b.n)
        if not n: raise Undefined("division by zero")
        num = {(): 1}
        for k, e in b.d.items():
            for _ in range(e): num = s.mulp(num, dict(k))
        if len(n) == 1 and () in n: return Rat(pscale(num, Fraction(1) / n[()]))
        c, p = content(n)
        num = pscale(num, Fraction(1) / c)
        d = {}
        mc = monocontent(p)
        if mc:
            p = pdivexact(p, {mc: 1})
            for a, e in mc:
                at = ATOMS[a]
                if at.rad is not None:     # 1/s = s/rad
                    num = s.mulp(num, {((a, e % 2),): 1} if e % 2 else {(): 1})
                    rr = s.rinv(Rat(at.rad))
                    for _ in range((e + 1) // 2):
                        t = s.rmul(Rat(num, d), rr); num, d = t.n, dict(t.d)
                else:
                    k = pkey({((a, 1),): 1}); d[k] = d.get(k, 0) + e
        if p != {(): 1}:
            k = pkey(p); d[k] = d.get(k, 0) + 1
        return s.rnorm(Rat(num, d))
    def rzero(s, r):
        n = s.reduce(r.n)
        if not n: return True
        if len(n) > 1 and ZSET in s.facts.values():
            s.consult += 1
            q = content(n)[1]
            if s.facts.get(pkey(q)) == ZSET: return True
            for k, f in s.facts.items():
                if f == ZSET and len(k) <= len(n) and pdivexact(q, dict(k)) is not None: return True
        return False
    def req(s, a, b): return s.rzero(s.radd(a, s.rneg(b)))

    # -------------------------------------------------------------- signs
    def poly_sign(s, p):
        """frozenset of possible signs"""
        p = s.reduce(p)
        if not p: return frozenset((0,))
        if len(p) == 1 and () in p: return frozenset((1 if p[()] > 0 else -1,))
        c, q = content(p)
        r = s.prim_sign(q)
        return r if c > 0 else frozenset(-x for x in r)
    def atom_sign(s, a):
        at = ATOMS[a]
        if at.pos is not None: base = frozenset((1,)) if at.pos == 1 else frozenset((0, 1))
        else: base = ALL
        if at.rad is not None and base != frozenset((1,)):
            rs = s.poly_sign(at.rad)
            if rs == frozenset((1,)): base = rs
            elif not (rs & {0, 1}): raise Infeasible()
            elif 0 in rs: base = frozenset((0, 1))
        if at.root is not None:
            rs = s.poly_sign(at.root[0])
            if at.root[1] % 2: base = base & rs
            elif rs == frozenset((1,)): base = rs
            else: base = frozenset((0, 1))
        f = s.facts.get(pkey({((a, 1),): 1}))
        if f is not None: base = base & f
        if at.kind == "fn" and at.name == "f2i": pass
        return base
    def prim_sign(s, q):
        k = pkey(q)
        r = s.signc.get(k)
        if r is not None: return r
        s.signc[k] = s.facts.get(k, ALL)      # weaker but sound, for the computation's own recursion
        r = s._prim_sign(q, k); s.signc[k] = r
        return r
    def _prim_sign(s, q, k):
        f = s.facts.get(k)
        res = f if f is not None else ALL
        if len(res) == 1: return res
        mc = monocontent(q)
        if mc and not (len(q) == 1 and len(mc) == 1 and mc[0][1] == 1):
            rest = pdivexact(q, {mc: 1})
            sg = s.poly_sign(rest)
            for a, e in mc:
                b = s.atom_sign(a)
                if e % 2 == 0: b = frozenset(x * x for x in b)
                sg = frozenset(x * y for x in sg for y in b)
            return res & sg or res
        if len(q) == 1: # single atom
            (m, c), = q.items()
            res = res & s.atom_sign(m[0][0]) or res
            if len(res) > 1 and (ATOMS[m[0][0]].kind == "fn" and ATOMS[m[0][0]].name == "floor" and not s.infeas or any(len(kk) > 1 and any(m in dict((x,)) or x[0] == m for x in kk) for kk in s.facts)):
                out = frozenset(sg for sg in res if s.feasible(q, frozenset((sg,))))
                if out: res = out
            return res
        # sum of terms of known weak sign
        t = set()
        for m, c in q.items():
            sg = frozenset((1,))
            for a, e in m:
                b = s.atom_sign(a)
                if e % 2 == 0: b = frozenset(x * x for x in b)
                sg = frozenset(x * y for x in sg for y in b)
            t.add(frozenset(x if c > 0 else -x for x in sg))
        u = frozenset().union(*t)
        if u == frozenset((1,)) or u == frozenset((-1,)): return res & u or res
        if -1 not in u: return res & (frozenset((1,)) if any(x == frozenset((1,)) for x in t) else frozenset((0, 1))) or res
        if 1 not in u: return res & (frozenset((-1,)) if any(x == frozenset((-1,)) for x in t) else frozenset((0, -1))) or res
        # perfect square
        if len(q) <= 40:
            w = psqrt(q)
            if w is not None: return res & frozenset((0, 1)) or res
            w = psqrt(pscale(q, -1))
            if w is not None: return res & frozenset((0, -1)) or res
        for k in (1, -1):
            w = sos(q if k == 1 else pscale(q, -1))
            if w is not None:
                nz = any(0 not in s.poly_sign(L) for c, L in w)
                res = res & (frozenset((k,)) if nz else frozenset((0, k))) or res
                if len(res) == 1: return res
        fs = factors(q)
        if fs:
            sg = frozenset((1,))
            for f, e in _fc[pkey(q)]:
                b = s.poly_sign(f)
                if e % 2 == 0: b = frozenset(x * x for x in b)
                sg = frozenset(x * y for x in sg for y in b)
            # the factorisation is up to a positive content
            lead = {(): 1}
            for f, e in _fc[pkey(q)]:
                for _ in range(e): lead = pmul(lead, f)
            m0 = next(iter(q))
            if (lead.get(m0, 0) > 0) != (q[m0] > 0): sg = frozenset(-x for x in sg)
            res = res & sg or res
            if len(res) == 1: return res
        # linear arithmetic over monomials
        if any(1 for kk in s.facts) :
            out = set()
            for sg in sorted(res):
                if s.feasible(q, frozenset((sg,))): out.add(sg)
            if out: res = frozenset(out)
        return res
    def feasible(s, q, sg):
        from .linarith import feasible
        cons = []
        vs = set(q) - {()}
        nest = s.infeas; s.infeas = True
        facts = [(dict(k), f) for k, f in s.facts.items()]
        # 0 <= u - floor(u) < 1 for every floor in sight
        for a in () if nest else {a for p in [q] + [p for p, f in facts] for m in p for a, e in m if ATOMS[a].kind == "fn" and ATOMS[a].name == "floor"}:
            u = ATOMS[a].args[0]; f = {((a, 1),): 1}; den = {(): 1}; k = 1
            for kk, e in u.d.items():
                b = s.poly_sign(dict(kk)) - {0}
                if e % 2: k = k * next(iter(b)) if len(b) == 1 else 0
                for _ in range(e): den = pmul(den, dict(kk))
            if k == 0 or len(den) > 6: continue
            d = pscale(psub(u.n, s.mulp(f, den)), k)
            facts.append((d, frozenset((0, 1)))); facts.append((psub(pscale(den, k), d), frozenset((1,))))
        s.infeas = nest
        # closure of facts sharing monomials
        used = set(); ch = True
        while ch:
            ch = False
            for i, (p, f) in enumerate(facts):
                if i in used: continue
                pv = set(p) - {()}
                if pv & vs:
                    used.add(i); vs |= pv; ch = True
            if len(vs) > 60 or len(used) > 40: break
        def addc(p, f):
            if f == frozenset((1,)): cons.append((p, ">"))
            elif f == frozenset((-1,)): cons.append((pscale(p, -1), ">"))
            elif f == frozenset((0,)): cons.append((p, "="))
            elif f == frozenset((0, 1)): cons.append((p, ">="))
            elif f == frozenset((0, -1)): cons.append((pscale(p, -1), ">="))
        addc(q, sg)
        for i in used: addc(*facts[i])
        for m in vs:
            if len(m) == 1 and m[0][1] == 1:
                f = s.atom_sign(m[0][0])
                if f in (frozenset((1,)), frozenset((0, 1)), frozenset((-1,)), frozenset((0, -1)), frozenset((0,))): addc({m: 1}, f)
            else:
                t = frozenset((1,))
                for a, e in m:
                    b = s.atom_sign(a)
                    if e % 2 == 0: b = frozenset(x * x for x in b)
                    t = frozenset(x * y for x in t for y in b)
                if t != ALL: addc({m: 1}, t)
        # squares of one-atom bounds: x > c >= 0 gives x^2 > c^2 and so on
        for p, op in list(cons):
            ms = [m for m in p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and op in (">", ">="):
                k = p[ms[0]]; c = Fraction(-p.get((), 0)) / k       # x > c (k > 0) or x < c (k < 0)
                a = ms[0][0][0]; x = {((a, 1),): 1}
                if k > 0 and c >= 0 or k < 0 and c <= 0:
                    D = s.reduce(psub(pmul(x, x), pconst(c * c)))
                    if D: cons.append((D, op))
                elif k < 0 and s.atom_sign(a) <= {0, 1} or k > 0 and s.atom_sign(a) <= {0, -1}:
                    D = s.reduce(psub(pconst(c * c), pmul(x, x)))
                    if D: cons.append((D, op))
        for m in list({m for p, op in cons for m in p if m and m not in vs}):
            t = frozenset((1,))
            for a, e in m:
                b = s.atom_sign(a)
                if e % 2 == 0: b = frozenset(x * x for x in b)
                t = frozenset(x * y for x in t for y in b)
            if t != ALL: addc({m: 1}, t)
        # integer-valued: p > 0 is p >= 1
        for i, (p, op) in enumerate(cons):
            if op == ">" and all(type(c) is int and all(ATOMS[x].isint for x, _ in m) for m, c in p.items()): cons[i] = (padd(p, {(): -1}), ">=")
        # trivially useful products: squares of differences are too many; keep it linear
        return feasible(cons)
    def rat_sign(s, r):
        sg = s.poly_sign(r.n)
        for k, e in r.d.items():
            b = s.poly_sign(dict(k))
            if e % 2 == 0: b = frozenset(x * x for x in b)
            b = b - {0}
            sg = frozenset(x * y for x in sg for y in b)
        return sg
    def need(s, r, test):
        """decide whether sign(r) satisfies `test` (a set); raise Split if undetermined"""
        s.consult += 1
        sg = s.rat_sign(r)
        if sg <= test: return True
        if not (sg & test): return False
        # split on a factor
        for k, e in r.d.items():
            p = dict(k)
            if e % 2 and len(s.poly_sign(p) - {0}) > 1: raise Split(s.splitpoly(p))
        q = s.splitpoly(r.n)
        n = s.reduce(r.n); c, pn = content(n)
        if pn == q:
            # the sign of the numerator alone decides: two-way split along the test
            k = 1 if c > 0 else -1
            for kk, e in r.d.items():
                if e % 2: k *= next(iter(s.poly_sign(dict(kk)) - {0}))
            yes = frozenset(x * k for x in test)
            raise Split(q, (yes, ALL - yes))
        raise Split(q)
    def splitpoly(s, p):
        p = s.reduce(p)
        c, q = content(p)
        mc = monocontent(q)
        if mc and not (len(q) == 1 and len(mc) == 1):
            for a, e in mc:
                if len(s.atom_sign(a)) > 1: return s.rootsplit({((a, 1),): 1})
            q = content(pdivexact(q, {mc: 1}))[1]
        elif mc:
            return s.rootsplit({((mc[0][0], 1),): 1})
        fs = factors(q)
        if fs:
            for f in fs:
                f = content(f)[1]
                if len(s.prim_sign(f)) > 1: return s.rootsplit(f)
        return s.rootsplit(q)
    def rootsplit(s, q):
        """if q is linear in one square-root atom, A*s + B, refine the signs of A and B first (so that the
        comparison can be squared), otherwise split on q itself"""
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and ATOMS[m[0][0]].rad is not None:
                return content(ATOMS[m[0][0]].rad)[1]
        return q

    # -------------------------------------------------------------- assume a fact (new context)
    def with_fact(s, q, signs):
        """q primitive; signs allowed. returns new Ctx or raises Infeasible"""
        q = s.reduce(q)
        if not q:
            if 0 not in signs: raise Infeasible()
            return Ctx(s)
        k, q = content(q)
        if k < 0: signs = frozenset(-x for x in signs)
        if len(q) == 1 and () in q:
            if 1 not in signs: raise Infeasible()
            return Ctx(s)
        cur = s.prim_sign(q)
        sg = cur & signs
        if not sg: raise Infeasible()
        if sg != frozenset((0,)):
            c = Ctx(s)
            c.facts[pkey(q)] = sg
            sq = s.squared(q, sg)
            for (p, f) in sq: c.addfact(p, f)
            if len(c.facts) > 1 and not c.feasible(q, sg): raise Infeasible()
            return c
        c = Ctx(s, keepcache=False)
        c.setzero(q)
        c.signc = {}
        c.check()
        return c
    def pinned(s, *rs):
        """floor(u) - k for a floor in the rationals rs that the facts force to the constant k"""
        fl = {a for r in rs for p in [r.n] + [dict(k) for k in r.d] for m in p for a, e in m if ATOMS[a].kind == "fn" and ATOMS[a].name == "floor"}
        for a in fl:
            cs = {0}
            for k in s.facts:
                p = dict(k); c = p.get((), 0)
                if type(c) is int and abs(c) < 100 and len(p) <= 3: cs |= {-c, c, -c - 1, c - 1}
            for k in sorted(cs, key=abs):
                q = {((a, 1),): 1}
                if k: q[()] = -k
                if not s.feasible(q, frozenset((1,))) and not s.feasible(q, frozenset((-1,))): return q
        return None
    def squared(s, q, sg):
        """consequences of sign(A*r + B) for a square root r: r > -B/A etc. given sign of A, B known"""
        out = []
        roots = [a for a in atoms_of(q) if ATOMS[a].rad is not None]
        if len(roots) == 1:
            a = roots[0]
            A, B = {}, {}
            for m, c in q.items():
                d = dict(m)
                if d.get(a, 0) == 1: A[mdiv(m, ((a, 1),))] = c
                elif d.get(a, 0) == 0: B[m] = c
                else: return out
            if len(A) == 1 and () in A:
                k = A[()]
                B = pscale(B, Fraction(1) / k)
                if k < 0: sg = frozenset(-x for x in sg)
                # sign(r + B) = sg
                D = s.reduce(psub(ATOMS[a].rad, pmul(B, B)))
                bs = s.poly_sign(B)
                if bs <= {0, -1} and D: out.append((D, sg))      # r vs -B>=0
                elif bs <= {1} and sg <= {-1, 0}: out.append((None, None))
        return out
    def addfact(s, p, f):
        if p is None: raise Infeasible()
        c, q = content(p)
        if c < 0: f = frozenset(-x for x in f)
        k = pkey(q)
        n = s.facts.get(k, ALL) & f
        if not n: raise Infeasible()
        s.facts[k] = n
    def setzero(s, q):
        q = s.reduce(q)
        if not q: return
        # sum of nonneg terms -> each zero
        c, q = content(q)
        # factors known not to be zero can be dropped
        mc = monocontent(q)
        if mc and not (len(q) == 1 and len(mc) == 1 and mc[0][1] == 1):
            left = tuple((a, 1) for a, e in mc if 0 in s.atom_sign(a))
            rest = pdivexact(q, {mc: 1})
            if left != mc:
                if 0 in s.poly_sign(rest):
                    q = pmul(rest, {left: 1}) if left else rest
                    if len(q) == 1 and () in q: raise Infeasible()
                    return s.setzero(q)
                if len(left) == 0: raise Infeasible()
                if len(left) == 1: s.zatom(left[0][0]); return
                q = {left: 1}
        elif len(q) > 1:
            fs = factors(q)
            if fs:
                fs = [content(f)[1] for f in fs]
                keep = [f for f in fs if 0 in s.poly_sign(f)]
                if not keep: raise Infeasible()
                if len(keep) < len(fs) or any(e > 1 for f, e in _fc[pkey(q)]):
                    q = {(): 1}
                    for f in keep: q = pmul(q, f)
                    return s.setzero(q)
        signs = []
        for m, cc in q.items():
            sg = frozenset((1,))
            for a, e in m:
                b = s.atom_sign(a)
                if e % 2 == 0: b = frozenset(x * x for x in b)
                sg = frozenset(x * y for x in sg for y in b)
            signs.append(frozenset(x if cc > 0 else -x for x in sg))
        if all(x <= {0, 1} for x in signs) or all(x <= {0, -1} for x in signs):
            if () in q: raise Infeasible()
            todo = [[a for a, e in m if 0 in s.atom_sign(a)] for m in q]
            if any(len(t) == 0 for t in todo): raise Infeasible()
            for t in todo:
                if len(t) == 1: s.zatom(t[0])
            if all(len(t) == 1 for t in todo): return
        w = sos(q) or sos(pscale(q, -1))
        if w and len(w) > 1:
            for c, L in w:
                L = s.reduce(L)
                if not L: continue
                if len(L) == 1 and () in L: raise Infeasible()
                s.setzero(content(L)[1])
            return
        roots = [a for a in atoms_of(q) if ATOMS[a].rad is not None]
        if len(roots) == 1 and not getattr(s, "insq", False):
            # A*r + B = 0 implies A^2 rad = B^2
            a = roots[0]; A, B = {}, {}
            for m, c in q.items():
                (A if (a, 1) in m else B)[mdiv(m, ((a, 1),)) if (a, 1) in m else m] = c
            if len(A) <= 30 and len(B) <= 60:
                D = s.reduce(psub(pmul(pmul(A, A), ATOMS[a].rad), pmul(B, B)))
                if D:
                    if 0 not in s.poly_sign(D): raise Infeasible()
                    if B and s.poly_sign(A) == s.poly_sign(B) and len(s.poly_sign(A)) == 1: raise Infeasible()
        # linear with constant coefficient
        best = None
        for a in sorted(atoms_of(q), reverse=True):
            at = ATOMS[a]
            if at.kind != "v" or at.name in ("pi", "inf"): continue
            lin = q.get(((a, 1),))
            if lin is not None and alone(a, q) and all(a not in dict(m) for m in q if m != ((a, 1),)):
                best = (a, lin); break
        if best:
            a, lin = best
            rest = {m: nz(Fraction(-c) / lin) for m, c in q.items() if m != ((a, 1),)}
            s.substitute(a, Rat(rest)); return
        for a in sorted(atoms_of(q), reverse=True):
            at = ATOMS[a]
            if at.kind != "v" or at.name in ("pi", "inf"): continue
            A, B = {}, {}; ok = True
            for m, c in q.items():
                e = dict(m).get(a, 0)
                if e == 0: B[m] = c
                elif e == 1: A[mdiv(m, ((a, 1),))] = c
                else: ok = False
            if ok and A and alone(a, q):
                sg = s.poly_sign(A)
                if 0 not in sg:
                    s.substitute(a, s.rmul(Rat(pscale(B, -1)), s.rinv(Rat(A)))); return
        for a in sorted(atoms_of(q), reverse=True):
            at = ATOMS[a]
            if at.kind == "v" and at.name in ("pi", "inf"): continue
            if at.rad is not None or at.root is not None or at.kind == "cos": continue
            lead = q.get(((a, 2),))
            if lead is not None and alone(a, q) and all(dict(m).get(a, 0) < 2 for m in q if m != ((a, 2),)):
                s.rels[a] = {m: nz(Fraction(-c) / lead) for m, c in q.items() if m != ((a, 2),)}
                s.refacts(); return
        s.facts[pkey(q)] = frozenset((0,))
    def setzero_rat(s, r):
        n = s.reduce(r.n)
        if n:
            if len(n) == 1 and () in n: raise Infeasible()
            s.setzero(content(n)[1])
    def zatom(s, a):
        at = ATOMS[a]
        if at.rad is not None: s.setzero(at.rad); return
        if at.root is not None: s.setzero(at.root[0]); return
        if at.kind == "v": s.substitute(a, RZ); return
        if at.name == "acos": s.setzero_rat(s.radd(at.args[0], Rat({(): -1}))); return
        if at.name in ("asin", "atan", "sinh", "tanh", "cbrt"): s.setzero_rat(at.args[0]); return
        s.facts[pkey({((a, 1),): 1})] = frozenset((0,))
    def substitute(s, a, r):
        if a in s.subs: return
        s.subs = {k: s.rsubst(v, a, r) for k, v in s.subs.items()}
        s.subs[a] = r
        pend = []
        for k, rep in list(s.rels.items()):
            if k != a and all(b != a for m in rep for b, e in m) and not closure_atoms(rep, {a: r}): continue
            del s.rels[k]
            q = s.psubst(psub({((k, 2),): 1}, rep), {a: r})
            pend.append(q)
        s.refacts()
        for q in pend: s.setzero_rat(q)
    def rsubst(s, v, a, r):
        return s.rmul(s.psubst(v.n, {a: r}), s.rdeninv(v.d, {a: r}))
    def rdeninv(s, d, sub):
        out = Rat({(): 1})
        for k, e in d.items():
            x = s.psubst(dict(k), sub)
            i = s.rinv(x)
            for _ in range(e): out = s.rmul(out, i)
        return out
    def psubst(s, p, sub):
        aff = closure_atoms(p, sub)
        if not aff: return Rat(s.reduce(p))
        out = RZ
        memo = {}
        for m, c in p.items():
            t = Rat({(): c})
            keep = []
            for a, e in m:
                if a in aff:
                    if a not in memo: memo[a] = sub[a] if a in sub else s.resub_atom(a, sub)
                    for _ in range(e): t = s.rmul(t, memo[a])
                else: keep.append((a, e))
            if keep: t = s.rmul(t, Rat({tuple(keep): 1}))
            out = s.radd(out, t)
        return out
    def resub_atom(s, a, sub):
        at = ATOMS[a]
        if at.rad is not None: return s.mksqrt(s.psubst(at.rad, sub))
        if at.root is not None: return s.mkroot(s.psubst(at.root[0], sub), at.root[1])
        if at.kind in ("sin", "cos"):
            return s.trig(at.kind, s.rmul(s.psubst(at.args[0].n, sub), s.rdeninv(at.args[0].d, sub)))
        args = [s.rmul(s.psubst(x.n, sub), s.rdeninv(x.d, sub)) if isinstance(x, Rat) else x for x in at.args]
        return s.fnatom(at.name, args)
    def refacts(s):
        old = s.facts; s.facts = {}; s.signc = {}
        for k, f in old.items():
            p = dict(k)
            try: r = s.psubst(p, s.subs) if s.subs else Rat(s.reduce(p))
            except Undefined: continue
            except Split: continue
            n = s.reduce(r.n)
            if not n:
                if 0 not in f: raise Infeasible()
                continue
            if r.d:
                # multiply out denominators of unknown sign: keep only when their sign is known
                sg = 1
                for kk, e in r.d.items():
                    b = s.poly_sign(dict(kk)) - {0}
                    if e % 2:
                        if len(b) != 1: sg = None; break
                        sg *= next(iter(b))
                if sg is None: continue
                f = frozenset(x * sg for x in f)
            if len(n) == 1 and () in n:
                v = 1 if n[()] > 0 else -1
                if v not in f: raise Infeasible()
                continue
            c, q = content(n)
            if c < 0: f = frozenset(-x for x in f)
            kq = pkey(q); nf = s.facts.get(kq, ALL) & f
            if not nf: raise Infeasible()
            s.facts[kq] = nf
        s.signc = {}
    def check(s):
        for k, f in list(s.facts.items()):
            q = dict(k)
            saved = s.facts.pop(k); s.signc = {}
            sg = s.prim_sign(q) & saved
            s.facts[k] = saved; s.signc = {}
            if not sg: raise Infeasible()
            if sg == ZSET and saved != ZSET: s.facts[k] = sg
        tried = set()
        while True:
            # facts that became equalities (x <= 0 and x >= 0) are used as such
            k = next((k for k, f in s.facts.items() if f == ZSET and k not in tried), None)
            if k is None: break
            tried.add(k)
            s.facts.pop(k); s.setzero(dict(k))

    def products(s, stage):
        """do the facts, together with their products by quantities of known sign, contradict each other linearly?"""
        from .linarith import feasible
        REL = {frozenset((1,)): (1, ">"), frozenset((-1,)): (-1, ">"), frozenset((0,)): (1, "="), frozenset((0, 1)): (1, ">="), frozenset((0, -1)): (-1, ">=")}
        base = []
        for k, f in s.facts.items():
            if f in REL:
                c, r = REL[f]; base.append((pscale(dict(k), c) if c < 0 else dict(k), r))
        if not base or len(base) > 40: return False
        deg = lambda p: max(sum(e for _, e in m) for m in p)
        D = max(deg(p) for p, r in base)
        ats = sorted({a for p, r in base for m in p for a, e in m})
        mult = []
        for a in ats:
            f = s.atom_sign(a)
            if f in REL and f != ZSET: mult.append((pscale({((a, 1),): 1}, REL[f][0]), REL[f][1]))
        mult += [(p, r) for p, r in base if r != "=" and len(p) > 1 and deg(p) == 1 and len(p) <= 4]
        cons = list(base)
        for a, r in mult:
            if len(a) == 1: cons.append((a, r))
        n0 = len(cons)
        if stage == 2:
            st = [a for a, r in mult if r == ">" and len(a) == 1][:6]
            mult += [(pmul(a, b), ">") for i, a in enumerate(st) for b in st[i+1:]]
        for i, (p, r) in enumerate(base):
            for q, t in mult:
                if p is q or deg(p) + deg(q) > D + stage or len(p) * len(q) > 60: continue
                pq = s.mulp(p, q)
                if pq: cons.append((pq, "=" if r == "=" else ">" if r == t == ">" else ">="))
                if len(cons) > 400: return False
        ms = [m for p, r in cons for m in p if m]
        have = {m for p, r in cons if len(p) == 1 for m in p}
        for m in set(ms) - have:
            t = frozenset((1,))
            for a, e in m:
                b = s.atom_sign(a)
                if e % 2 == 0: b = frozenset(x * x for x in b)
                t = frozenset(x * y for x in t for y in b)
            if t in REL: cons.append((pscale({m: 1}, REL[t][0]), REL[t][1]))
        return len(cons) > n0 and not feasible(cons)
    def contradictory(s):
        try:
            if s.products(1) or s.products(2): return True
        except (TooBig, Split, Infeasible, Undefined): pass
        if s.zerosum(): return True
        try: return s.positiv()
        except (TooBig, Split, Infeasible, Undefined): return False
    def positiv(s):
        """do the facts and their pairwise products admit a non-negative combination that is a negative number?"""
        from .posit import certificate
        if len(s.facts) > 40: return False
        REL = {frozenset((1,)): (1, True), frozenset((-1,)): (-1, True), frozenset((0, 1)): (1, False), frozenset((0, -1)): (-1, False)}
        base, eqs, ats, ne = [], [], set(), []
        for k, f in s.facts.items():
            p = dict(k); ats |= atoms_of(p)
            if f in REL:
                c, st = REL[f]; base.append((pscale(p, c), st))
            elif f == ZSET: eqs.append(p)
            elif 0 not in f: ne.append(p)
        lin = [{((a, 1),): 1} for a in sorted(ats)][:24]
        for a, x in zip(sorted(ats), lin):
            f = s.atom_sign(a)
            if f in REL and pkey(x) not in s.facts: base.append((pscale(x, REL[f][0]), REL[f][1]))
        if not base and not ne: return False
        ine = list(base)
        small = [b for b in base if len(b[0]) <= 40][:36]
        for i, (p, a) in enumerate(small):
            for q, b in small[i:]:
                if len(p) * len(q) > 400: continue
                r = s.mulp(p, q)
                if r: ine.append((r, a and b))
        for p in ne + [p for p in lin]:
            if len(p) <= 20: ine.append((s.mulp(p, p), p not in lin))
        for m in sorted({m for p, _ in ine for m in p if len(m) > 1 and all(e % 2 == 0 for _, e in m)})[:200]: ine.append(({m: 1}, False))
        E2 = list(eqs)
        for e in eqs:
            if len(e) > 40: continue
            for q in lin + [p for p, _ in small]:
                if len(e) * len(q) > 400: continue
                r = s.mulp(e, q)
                if r: E2.append(r)
        return certificate([c for c in ine if c[0]], [e for e in E2 if e]) is not None
    def zerosum(s):
        """the facts that hold with equality have squares that sum, modulo the other relations, to a non-zero constant"""
        t = {}
        try:
            for k, f in s.facts.items():
                if f == ZSET: t = padd(t, s.mulp(dict(k), dict(k)))
            t = s.reduce(t)
            if not t: return False
            if len(t) == 1 and () in t: return True
            return 0 not in s.poly_sign(t)
        except (TooBig, Split, Infeasible, Undefined): return False
    # -------------------------------------------------------------- nodes -> rationals
    def ev(s, n):
        r = s.cache.get(n.id)
        if r is not None:
            s.consult += 1
            if r is False: raise Undefined()
            return r
        r = s.free.get(n.id)
        if r is not None: return r
        c0 = s.consult
        try: r = s._ev(n)
        except Undefined:
            s.cache[n.id] = False
            raise
        if s.consult == c0: s.free[n.id] = r
        else: s.cache[n.id] = r
        return r
    def _ev(s, n):
        op = n.op
        if op == "c":
            v = n.args[0]
            return Rat(pconst(v)) if v else RZ
        if op == "v":
            if n.args[0] == "nan": raise Undefined()
            a = atom_var(n.args[0])
            if n.sort[0] == "I": a.isint = True
            r = s.subs.get(a.id)
            if r is not None: s.consult += 1; return r
            return Rat(patom(a))
        if op == "add": return s.radd(s.ev(n.args[0]), s.ev(n.args[1]))
        if op == "mul":
            return s.rmul(s.ev(n.args[0]), s.ev(n.args[1]))
        if op == "div":
            b = s.ev(n.args[1])
            bn = s.reduce(b.n)
            if not bn: raise Undefined()
            if s.subs or s.facts:
                if s.poly_sign(bn) == frozenset((0,)): s.consult += 1; raise Undefined()
            return s.rmul(s.ev(n.args[0]), s.rinv(b))
        if op == "ite":
            return s.ev(n.args[1] if s.cond(n.args[0]) else n.args[2])
        if op == "fn": return s.evfn(n)
        if op in ("itor", "utor"): return s.ev(n.args[0])
        if n.sort[0] == "I":
            w = E.width(n)
            if op == "iadd": return s.imod(s.radd(s.ev(n.args[0]), s.ev(n.args[1])), w)
            if op == "imul": return s.imod(s.rmul(s.ev(n.args[0]), s.ev(n.args[1])), w)
            if op == "sext": return s.ev(n.args[0])
            if op == "trunc":
                r = s.ibits(n.args[0], 0, w)
                if r is not None: return r
            args = [s.ev(a) if a.sort != "B" else s.boolrat(a) for a in n.args]
            if op in ("iand", "ior"):
                args.sort(key=lambda r: repr(sorted(r.n.items())))
            if op == "ixor" :
                args.sort(key=lambda r: repr(sorted(r.n.items())))
            if op == "ilshr" and E.isc(n.args[1]) and not s.infeas:
                s.consult += 1
                if s.rat_sign(args[0]) <= {0, 1}: return s.evfloor(s.rmul(args[0], Rat(pconst(Fraction(1, 1 << E.uns(n.args[1]))))))
            if op in ("isdiv", "isrem"):
                r = s.idiv(n, args)
                if r is not None: return r
            if all(not a.d and (not a.n or (len(a.n) == 1 and () in a.n)) for a in args):
                cs = [a.n.get((), 0) for a in args]
                r = s.iconcrete(op, n, cs)
                if r is not None: return Rat(pconst(r)) if r else RZ
            return s.fnatom("%s:%d" % (op, w), args)
        if op in ("bitsf",): return s.fnatom("bitsf", [s.ev(n.args[0])])
        raise Unknown("node " + op)
    def idiv(s, n, args):
        """signed division rounds the real quotient towards zero; the remainder is what that leaves"""
        a, b = args
        if s.rzero(b): raise Undefined()
        if not b.d and list(b.n) == [()] and not a.d and (not a.n or list(a.n) == [()]): return None
        q = s.evtrunc(s.rmul(a, s.rinv(b)))
        return q if n.op == "isdiv" else s.radd(a, s.rneg(s.rmul(b, q)))
    def evtrunc(s, q):
        if not q.n: return RZ
        if s.integral(q): return q
        if s.need(q, frozenset((0, 1))): return s.evfloor(q)
        return s.rneg(s.evfloor(s.rneg(q)))
    def integral(s, r):
        """an integer-valued polynomial"""
        return not r.d and all(type(c) is int and all(ATOMS[x].isint for x, _ in m) for m, c in r.n.items())
    def ibits(s, n, lo, w):
        """the value of bits [lo, lo+w) of n where they are one whole part of a packed word, else None"""
        W = E.width(n)
        if lo == 0 and w == W and n.op not in ("ilshr", "ior", "cat"): return s.ev(n)
        if n.op == "ite": return s.ibits(n.args[1] if s.cond(n.args[0]) else n.args[2], lo, w)
        if n.op == "c": return Rat(pconst(v)) if (v := E.wrap(E.uns(n) >> lo, w)) else RZ
        if n.op == "zext" and n.args[0].sort != "B":
            k = E.width(n.args[0])
            return RZ if lo >= k else s.ibits(n.args[0], lo, w) if lo + w <= k else None
        if n.op == "sext" and n.args[0].sort != "B":
            return s.ibits(n.args[0], lo, w) if lo + w <= E.width(n.args[0]) else None
        if n.op == "trunc": return s.ibits(n.args[0], lo, w)
        if n.op == "imul" and E.isc(n.args[0]):
            u = E.uns(n.args[0]); k = u.bit_length() - 1
            if u != 1 << k: return None
            return RZ if lo + w <= k else s.ibits(n.args[1], lo - k, w) if lo >= k else None
        if n.op == "ilshr" and E.isc(n.args[1]):
            k = E.uns(n.args[1])
            return RZ if lo + k >= W else s.ibits(n.args[0], lo + k, w) if lo + k + w <= W else None
        if n.op == "cat":
            p = 0
            for x in n.args:
                if p <= lo and lo + w <= p + E.width(x): return s.ibits(x, lo - p, w)
                p += E.width(x)
            return None
        if n.op == "iand":
            for x, y in (n.args, n.args[::-1]):
                if E.isc(x):
                    v = E.uns(x) >> lo & (1 << w) - 1
                    if v == 0: return RZ
                    if v == (1 << w) - 1: return s.ibits(y, lo, w)
            return None
        if n.op == "iadd":
            # no carry arrives from below when every summand is a multiple of 2^lo
            if lo and not all(E.isc(x) and not E.uns(x) % (1 << lo) or x.op == "imul" and E.isc(x.args[0]) and not E.uns(x.args[0]) % (1 << lo) for x in n.args):
                if all(E.isc(x) and not E.uns(x) % (1 << lo + w) or x.op == "imul" and E.isc(x.args[0]) and not E.uns(x.args[0]) % (1 << lo + w) for x in n.args): return RZ
                return None
            bs = [s.ibits(x, lo, w) for x in n.args]
            if None in bs: return None
            r = RZ
            for b in bs: r = s.radd(r, b)
            return s.imod(r, w)
        if n.op == "ior":
            r = RZ
            for x in n.args:
                b = s.ibits(x, lo, w)
                if b is None: return None
                if b.n:
                    if r.n: return None
                    r = b
            return r
        return None
    def iconcrete(s, op, n, cs):
        try:
            ns = [E.iconst(int(c), E.width(a)) if a.sort != "B" else E.const(bool(c), "B") for c, a in zip(cs, n.args)]
            w = E.width(n)
            if op == "ixor":
                r = ns[0]
                for x in ns[1:]: r = E.ibin("xor", r, x, w)
            elif op in ("zext", "trunc", "sext"): r = E.icast(op, ns[0], w)
            elif op[0] == "i" and op[1:] in ("and", "or", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"): r = E.ibin(op[1:], ns[0], ns[1], w)
            else: return None
            return E.cv(r) if E.isc(r) else None
        except Exception: return None
    def imod(s, r, w):
        if r.d: return r
        n = {}
        for m, c in r.n.items():
            if type(c) is not int: return r
            c = E.wrap(c, w)
            if c: n[m] = c
        return Rat(n)
    def boolrat(s, b): return Rat({(): 1}) if s.cond(b) else RZ
    def fnatom(s, name, args):
        lst = _atomkey.setdefault(("fn", name, len(args)), [])
        for a in lst:
            ok = True
            for x, y in zip(a.args, args):
                if isinstance(x, Rat) != isinstance(y, Rat): ok = False; break
                if isinstance(x, Rat):
                    if x is y: continue
                    if x.n == y.n and x.d == y.d: continue
                    if not s.req(x, y): ok = False; break
                elif x != y: ok = False; break
            if ok: return Rat(patom(a))
        a = new_atom("fn", name, tuple(args)); lst.append(a)
        if name in ("exp", "cosh") : a.pos = 1
        if name == "acos": a.pos = 0
        if name.startswith("zext"): a.pos = 0
        return Rat(patom(a))
    def trig(s, f, u):
        if s.rzero(u): return RZ if f == "sin" else Rat({(): 1})
        # odd/even normalisation
        lead = u.n[max(u.n, key=order)]
        if lead < 0:
            r = s.trig(f, s.rneg(u)); return s.rneg(r) if f == "sin" else r
        # multiples of pi/2
        if not u.d and len(u.n) == 1:
            (m, c), = u.n.items()
            if m == ((atom_var("pi").id, 1),):
                q = Fraction(c) * 2
                if q.denominator == 1:
                    k = q.numerator % 4
                    v = {"sin": (0, 1, 0, -1), "cos": (1, 0, -1, 0)}[f][k]
                    return Rat(pconst(v)) if v else RZ
        # shift by multiples of pi/2
        pm = ((atom_var("pi").id, 1),)
        if not u.d and pm in u.n and len(u.n) > 1:
            q = Fraction(u.n[pm]) * 2
            if q.denominator == 1 and q != 0:
                k = q.numerator % 4
                v = Rat({m: c for m, c in u.n.items() if m != pm})
                sn, cs = s.trig("sin", v), s.trig("cos", v)
                return {"sin": (sn, cs, s.rneg(sn), s.rneg(cs)), "cos": (cs, s.rneg(sn), s.rneg(cs), sn)}[f][k]
        # sums of angles: addition theorems, one term at a time
        if not u.d and 1 < len(u.n) <= 5:
            sn, cs = RZ, Rat({(): 1})
            for m in sorted(u.n, key=order):
                t = Rat({m: u.n[m]}); a, b = s.trig("sin", t), s.trig("cos", t)
                sn, cs = s.radd(s.rmul(sn, b), s.rmul(cs, a)), s.radd(s.rmul(cs, b), s.rneg(s.rmul(sn, a)))
            return sn if f == "sin" else cs
        if not u.d and len(u.n) == 1:
            (m, c), = u.n.items()
            if len(m) == 1 and m[0][1] == 1:
                r = s.invtrig(f, ATOMS[m[0][0]], Fraction(c))
                if r is not None: return r
        # express through a registered base angle (rational multiples)
        bases = _atomkey.setdefault(("trigbases",), [])
        for (bu, sa, ca) in bases:
            k = ratio(s, u, bu)
            if k is not None:
                if k.denominator != 1:
                    raise Rebase(Rat({m: nz(Fraction(c) / k.denominator) for m, c in bu.n.items()}, bu.d))
                if abs(k) <= 16: return s.multangle(f, k.numerator, Rat(patom(sa)), Rat(patom(ca)))
        sa = new_atom("sin", "sin", (u,)); ca = new_atom("cos", "cos", (u, sa.id))
        bases.append((u, sa, ca))
        return Rat(patom(sa if f == "sin" else ca))
    def invtrig(s, f, at, k):
        """sine or cosine of k times an inverse trigonometric application"""
        if at.kind != "fn" or at.name not in ("acos", "asin", "atan", "atan2"): return None
        one = Rat({(): 1})
        x = at.args[0]
        if at.name == "acos":
            if k.denominator == 2:
                h = Rat({(): Fraction(1, 2)})
                sn = s.mksqrt(s.rmul(h, s.radd(one, s.rneg(x)))); cs = s.mksqrt(s.rmul(h, s.radd(one, x)))
                return s.multangle(f, k.numerator, sn, cs)
            cs = x; sn = s.mksqrt(s.radd(one, s.rneg(s.rmul(x, x))))
        elif at.name == "asin": sn = x; cs = s.mksqrt(s.radd(one, s.rneg(s.rmul(x, x))))
        elif at.name == "atan":
            cs = s.rinv(s.mksqrt(s.radd(one, s.rmul(x, x)))); sn = s.rmul(x, cs)
        else:
            y, z = at.args
            q = s.radd(s.rmul(y, y), s.rmul(z, z))
            if s.need(q, frozenset((0,))): sn, cs = RZ, one
            else:
                i = s.rinv(s.mksqrt(q)); sn, cs = s.rmul(y, i), s.rmul(z, i)
        if k.denominator != 1 or abs(k) > 8: return None
        return s.multangle(f, k.numerator, sn, cs)
    def multangle(s, f, k, sn, cs):
        a, b = RZ, Rat({(): 1})   # sin(0), cos(0)
        for _ in range(abs(k)):
            a, b = s.radd(s.rmul(a, cs), s.rmul(b, sn)), s.radd(s.rmul(b, cs), s.rneg(s.rmul(a, sn)))
        if k < 0: a = s.rneg(a)
        return a if f == "sin" else b
    def mksqrt(s, r):
        n = s.reduce(r.n)
        if not n: return RZ
        # sqrt(n/d) = sqrt(n*d)/|d|
        num = n; outd = Rat({(): 1})
        for k, e in r.d.items():
            p = dict(k)
            if e % 2: num = s.mulp(num, p); e += 1
            sg = s.poly_sign(p) - {0}
            if (e // 2) % 2: s.consult += 1
            if len(sg) > 1:
                if (e // 2) % 2:
                    raise Split(s.splitpoly(p))
            i = s.rinv(Rat(p))
            for _ in range(e // 2): outd = s.rmul(outd, i)
            if (e // 2) % 2 and sg == frozenset((-1,)): outd = s.rneg(outd)
        c, q = content(num)
        if c < 0: q = pscale(q, -1); c = -c
        c = Fraction(c)
        # square part of c
        cn = c.numerator * c.denominator
        sq = 1; f = 2; rem = cn
        while f * f <= rem and f < 2000:
            while rem % (f * f) == 0: rem //= f * f; sq *= f
            f += 1
        if math.isqrt(rem) ** 2 == rem: sq *= math.isqrt(rem); rem = 1
        out = s.rmul(outd, Rat({(): nz(Fraction(sq, c.denominator))}))
        q = pscale(q, rem)
        w = psqrt(q) if len(q) <= 60 else None
        if w is not None:
            s.consult += 1
            sg = s.poly_sign(w)
            if sg <= {0, 1}: return s.rmul(out, Rat(w))
            if sg <= {0, -1}: return s.rmul(out, Rat(pscale(w, -1)))
            raise Split(s.splitpoly(w))
        mc = monocontent(q)
        if mc:
            pulled = []
            for a, e in mc:
                if e >= 2:
                    sg = s.atom_sign(a); h = e // 2
                    if h % 2:
                        s.consult += 1
                        if sg <= {0, 1}: out = s.rmul(out, Rat({((a, h),): 1}))
                        elif sg <= {0, -1}: out = s.rmul(out, Rat({((a, h),): -1}))
                        else: raise Split({((a, 1),): 1})
                    else: out = s.rmul(out, Rat({((a, h),): 1}))
                    pulled.append((a, 2 * h))
            if pulled: q = pdivexact(q, {tuple(pulled): 1})
        if q == {(): 1}: return out
        lst = _atomkey.setdefault(("sqrt",), [])
        k = pkey(q)
        for a in lst:
            if pkey(a.rad) == k: return s.rmul(out, Rat(patom(a)))
        # divisible by the radicand of an existing root
        for a in lst:
            if len(a.rad) > 1 and len(q) > len(a.rad) and len(q) < 500:
                d = pdivexact(q, a.rad)
                if d is not None and s.poly_sign(a.rad) <= {0, 1}:
                    s.consult += 1
                    return s.rmul(s.rmul(out, Rat(patom(a))), s.mksqrt(Rat(d)))
        w = s.denest(q)
        if w is not None:
            s.consult += 1
            sg = s.poly_sign(w)
            if sg <= {0, 1}: return s.rmul(out, Rat(w))
            if sg <= {0, -1}: return s.rmul(out, Rat(pscale(w, -1)))
            raise Split(s.splitpoly(w))
        fs = factors_sq(q)
        if fs:
            r = out
            lead = {(): 1}
            for p, e in fs:
                for _ in range(e): lead = pmul(lead, p)
            m0 = next(iter(q))
            rest = {(): nz(Fraction(q[m0]) / Fraction(lead[m0]))}   # the factorisation is up to a constant
            for p, e in fs:
                for _ in range(e % 2): rest = pmul(rest, p)
                if e // 2:
                    sg = s.poly_sign(p)
                    if (e // 2) % 2: s.consult += 1
                    if (e // 2) % 2 and not (sg <= {0, 1}):
                        s.consult += 1
                        if sg <= {0, -1}: r = s.rneg(r)
                        else:
                            raise Split(s.splitpoly(p))
                    for _ in range(e // 2): r = s.rmul(r, Rat(p))
            return s.rmul(r, s.mksqrt(Rat(rest)))
        a = new_atom("sqrt", "sqrt", (Rat(q),)); a.rad = q; a.pos = 0
        lst.append(a)
        return s.rmul(out, Rat(patom(a)))
    def mkroot(s, r, k):
        """the real k-th root (k >= 3): an atom whose k-th power is a polynomial"""
        num = s.reduce(r.n)
        if not num: return RZ
        out = Rat({(): 1})
        def pulled(p, h):
            """p^h drawn out of the root of p^(hk)"""
            if k % 2 == 0 and h % 2:
                sg = s.poly_sign(p); s.consult += 1
                if sg <= {0, 1}: pass
                elif sg <= {0, -1}: p = pscale(p, -1)
                else: raise Split(s.splitpoly(p))
            x = Rat({(): 1})
            for _ in range(h): x = s.rmul(x, Rat(p))
            return x
        for key, e in r.d.items():
            p = dict(key); h = -(-e // k)
            out = s.rmul(out, s.rinv(pulled(p, h)))
            for _ in range(h * k - e): num = s.mulp(num, p)
        c, q = content(num); c = Fraction(c)
        if c < 0:
            if k % 2: out = s.rneg(out); c = -c
            else: q = pscale(q, -1); c = -c
        n, d = c.numerator * c.denominator ** (k - 1), c.denominator
        o = 1; f = 2
        while f ** k <= n and f < 200:
            while n % f ** k == 0: n //= f ** k; o *= f
            f += 1
        out = s.rmul(out, Rat({(): nz(Fraction(o, d))}))
        mc = tuple((a, e // k) for a, e in monocontent(q) or () if e >= k)
        for a, h in mc:
            out = s.rmul(out, pulled({((a, 1),): 1}, h)); q = pdivexact(q, {((a, h * k),): 1})
        q = pscale(q, n)
        if q == {(): 1}: return out
        lst = _atomkey.setdefault(("root", k), [])
        for a in lst:
            if a.root[0] == q: return s.rmul(out, Rat(patom(a)))
        a = new_atom("root", "root%d" % k, (Rat(q),)); a.root = (q, k); lst.append(a)
        return s.rmul(out, Rat(patom(a)))
    def denest(s, q):
        """u*t + w whose square is q = A + B*t, for a root t = sqrt(D): A = u^2 D + w^2, B = 2uw"""
        roots = [a for a in atoms_of(q) if ATOMS[a].rad is not None]
        if len(roots) != 1 or len(q) > 60: return None
        a = roots[0]; A, B = {}, {}
        for m, c in q.items():
            e = dict(m).get(a, 0)
            if e == 0: A[m] = c
            elif e == 1: B[mdiv(m, ((a, 1),))] = c
            else: return None
        if not A or not B: return None
        try: d = psqrt(s.reduce(psub(pmul(A, A), s.mulp(pmul(B, B), ATOMS[a].rad))))
        except TooBig: return None
        if d is None: return None
        for k in (1, -1):
            w2 = pscale(padd(A, pscale(d, k)), Fraction(1, 2))
            w = psqrt(w2) if w2 else None
            if not w: continue
            u = pdivexact(B, pscale(w, 2))
            if u is None: continue
            r = padd(s.mulp(u, {((a, 1),): 1}), w)
            if not s.reduce(psub(s.mulp(r, r), q)): return r
        return None
    def evfn(s, n):
        f = n.args[0]
        if f == "sqrt": return s.mksqrt(s.ev(n.args[1]))
        args = [s.ev(a) if a.sort != "B" else s.boolrat(a) for a in n.args[1:]]
        if f in ("sin", "cos"): return s.trig(f, args[0])
        if f == "tan":
            return s.rmul(s.trig("sin", args[0]), s.rinv(s.trig("cos", args[0])))
        if f in ("asin", "atan", "sinh", "tanh", "cbrt", "asinh", "atanh") and args[0].n:
            if args[0].n[max(args[0].n, key=order)] < 0: return s.rneg(s.fnatom(f, [s.rneg(args[0])]))
        if f in ("asin", "atan", "sinh", "tanh", "cbrt") and not args[0].n: return RZ
        if f in ("floor", "ceil", "trunc", "round"):
            a = args[0]
            if not a.d and not s.reduce(a.n): return RZ
            if not a.d and len(a.n) == 1 and () in a.n:
                v = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[f](a.n[()])
                return Rat(pconst(v)) if v else RZ
            if f == "trunc": return s.evtrunc(a)
            if f == "ceil": return s.rneg(s.evfloor(s.rneg(a)))
            if f == "floor": return s.evfloor(a)
        if f == "f2i": return s.evtrunc(args[0])
        if f == "cbrt": return s.mkroot(args[0], 3)
        if f == "pow":
            b, e = args
            if not e.d and list(e.n) == [()]:
                k = Fraction(e.n[()])
                if 2 <= k.denominator <= 6 and abs(k) <= 12:
                    x = s.mksqrt(b) if k.denominator == 2 else s.mkroot(b, k.denominator); r = Rat({(): 1})
                    for _ in range(abs(k.numerator)): r = s.rmul(r, x)
                    return r if k >= 0 else s.rinv(r)
            if not e.d and (not e.n or list(e.n) == [()]):
                k = Fraction(e.n.get((), 0))
                if k.denominator == 1 and abs(k) <= 24:
                    r = Rat({(): 1})
                    for _ in range(abs(k.numerator)): r = s.rmul(r, b)
                    return r if k >= 0 else s.rinv(r)
            # b^(e + integer) = b^e * b^integer
            if not e.d and () in e.n and len(e.n) > 1:
                k = Fraction(e.n[()])
                ki = math.floor(k)
                if ki:
                    rest = Rat({m: c for m, c in e.n.items() if m}) if k == ki else s.radd(e, Rat(pconst(-ki)))
                    r = s.fnatom("pow", [b, rest])
                    bb = b if ki > 0 else s.rinv(b)
                    for _ in range(abs(ki)): r = s.rmul(r, bb)
                    return r
            if not e.d and list(e.n) == [()]:
                k = Fraction(e.n[()]); ki = math.floor(k)
                if ki:
                    r = s.fnatom("pow", [b, Rat(pconst(k - ki))])
                    bb = b if ki > 0 else s.rinv(b)
                    for _ in range(abs(ki)): r = s.rmul(r, bb)
                    return r
        if f == "exp":
            a = args[0]
            if not s.reduce(a.n): return Rat({(): 1})
            if not a.d:
                r = Rat({(): 1})
                for m in sorted(a.n, key=order):
                    c = Fraction(a.n[m])
                    if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == "log" and c.denominator == 1 and abs(c) <= 8: b = ATOMS[m[0][0]].args[0]
                    elif c.denominator == 1 and abs(c) <= 8: b = s.fnatom("exp", [Rat({m: 1})])
                    else:
                        b = s.fnatom("exp", [Rat({m: nz(abs(c))})]); c = Fraction(1 if c > 0 else -1)
                    if c < 0: b = s.rinv(b)
                    for _ in range(abs(int(c))): r = s.rmul(r, b)
                return r
        if f == "log":
            if s.req(args[0], Rat({(): 1})): return RZ
        if f == "atan2":
            pass
        return s.fnatom(f, args)
    def evfloor(s, a):
        """floor, with every integer-valued summand pulled out and its argument's leading coefficient positive"""
        if not a.n: return RZ
        if s.integral(a): return a
        out = RZ
        if not a.d:
            o = {}; rest = {}
            for m, c in a.n.items():
                if type(c) is int and all(ATOMS[x].isint for x, _ in m): o[m] = c
                elif all(ATOMS[x].isint for x, _ in m) and m and Fraction(c).denominator > 1 and not 0 < c < 1:
                    k = math.floor(c); o[m] = k; rest[m] = nz(Fraction(c) - k)
                else: rest[m] = c
            if () in rest:
                k = math.floor(rest[()])
                if k:
                    o[()] = o.get((), 0) + k
                    v = nz(Fraction(rest[()]) - k)
                    if v: rest[()] = v
                    else: del rest[()]
            if not rest: return Rat(o)
            if rest.get(()) == Fraction(1, 2) and all(c == Fraction(1, 2) for c in rest.values()) and all(ATOMS[x].isint for m in rest for x, _ in m):
                # floor((p + 1)/2) = p - floor(p/2)
                del rest[()]
                return s.radd(Rat(padd(o, pscale(rest, 2))), s.rneg(s.evfloor(Rat(rest))))
            out = Rat(o) if o else RZ; a = Rat(rest)
        else:
            # quotient terms k*m with den * k*m cancelling a leading part of the numerator
            den = {(): 1}
            for k, e in a.d.items():
                for _ in range(e): den = pmul(den, dict(k))
            if len(den) <= 6:
                n = dict(a.n); q = {}
                for _ in range(8):
                    t = intquot(n, den)
                    if t is None: break
                    q = padd(q, t); n = psub(n, pmul(den, t))
                if q:
                    out = Rat(q)
                    if not n: return out
                    a = s.radd(a, s.rneg(out))
                    if s.integral(a): return s.radd(out, a)
        if not a.n: return out
        if not a.d and len(a.n) <= 4:
            # a floor whose value the facts settle
            p = a.n; b = s.poly_sign(p)
            if b <= {0, 1}:
                q = psub(p, {(): 1}); b = s.poly_sign(q)
                if b <= {-1}: return out
                if b <= {0, 1} and s.poly_sign(psub(q, {(): 1})) <= {-1}: return s.radd(out, Rat({(): 1}))
            elif b <= {-1}:
                if s.poly_sign(padd(p, {(): 1})) <= {0, 1}: return s.radd(out, Rat({(): -1}))
        lead = a.n[max(a.n, key=order)]
        if lead < 0:
            na = s.rneg(a); t = s.fnatom("floor", [na])
            # floor(-x) = -floor(x), less one unless x is an integer
            f = s.rneg(t)
            if not s.need(s.radd(na, f), frozenset((0,))): f = s.radd(f, Rat({(): -1}))
            return s.radd(out, f)
        return s.radd(out, s.fnatom("floor", [a]))

    # -------------------------------------------------------------- booleans
    def cond(s, b):
        r = s.bcache.get(b.id)
        if r is not None:
            s.consult += 1
            return r
        r = s._cond(b)
        s.bcache[b.id] = r
        return r
    def infsign(s, r):
        """sign of k*inf + (finite terms); 0 if r is not of that form.  Inputs are finite."""
        if ("v", "inf") not in _atomkey: return 0
        i = atom_var("inf").id; C = {}
        for m, c in r.n.items():
            e = [(a, k) for a, k in m if a == i]
            if e:
                if e[0][1] != 1: return 0
                C[tuple(x for x in m if x[0] != i)] = c
            elif any(i in atom_deps(a) for a, _ in m): return 0
        if not C or any(i in atom_deps(a) for p in [C] + [dict(k) for k in r.d] for m in p for a, _ in m): return 0
        if list(C) == [()] and not r.d: return 1 if C[()] > 0 else -1
        q = Rat(C); q.d = r.d
        if s.need(q, frozenset((0,))): raise Undefined()      # 0 * infinity
        return 1 if s.need(q, frozenset((1,))) else -1
    def _cond(s, b):
        op = b.op
        if op == "c": return b.args[0]
        if op == "not": return not s.cond(b.args[0])
        if op == "ite": return s.cond(b.args[1]) if s.cond(b.args[0]) else s.cond(b.args[2])
        if op in ("lt", "le", "eq"):
            x, y = b.args
            if x.op == "c" and y.op == "ite": pass
            r = s.radd(s.ev(x), s.rneg(s.ev(y)))
            k = s.infsign(r)
            if k: return k < 0 and op != "eq"
            return s.need(r, {"lt": frozenset((-1,)), "le": frozenset((-1, 0)), "eq": frozenset((0,))}[op])
        if op in ("ult", "ule"):
            # unsigned: x <u y. both sides' sign bits decide, otherwise the difference
            x, y = s.ev(b.args[0]), s.ev(b.args[1])
            sx = s.need(x, frozenset((-1,))); sy = s.need(y, frozenset((-1,)))
            if sx != sy: return sy
            return s.need(s.radd(x, s.rneg(y)), frozenset((-1,)) if op == "ult" else frozenset((-1, 0)))
        if op == "v":
            return s.need(Rat(patom(atom_var(b.args[0]))), frozenset((1,)))
        if op == "fn":
            args = [s.ev(a) if a.sort != "B" else s.boolrat(a) for a in b.args[1:]]
            return s.need(s.fnatom(b.args[0], args), frozenset((1,)))
        raise Unknown("condition " + op)

def ratio(s, u, v):
    """u/v if it is a rational constant"""
    if u.d != v.d or set(u.n) != set(v.n): return None
    m = next(iter(u.n)); k = Fraction(u.n[m]) / Fraction(v.n[m])
    for m, c in u.n.items():
        if Fraction(c) != k * v.n[m]: return None
    return k
_clos = {}
def atom_deps(a):
    r = _clos.get(a)
    if r is None:
        at = ATOMS[a]; r = {a}
        for x in at.args:
            if isinstance(x, Rat):
                for b in atoms_of(x.n): r |= atom_deps(b)
                for k in x.d:
                    for b in atoms_of(dict(k)): r |= atom_deps(b)
            elif isinstance(x, int) and at.kind == "cos": r |= atom_deps(x)
        if at.rad is not None:
            for b in atoms_of(at.rad): r |= atom_deps(b)
        _clos[a] = r
    return r
def alone(a, q):
    """no other atom of q depends on a"""
    return all(b == a or a not in atom_deps(b) for b in atoms_of(q))
def closure_atoms(p, sub):
    ks = set(sub); out = set()
    for a in atoms_of(p):
        if atom_deps(a) & ks: out.add(a)
    return out

_fc = {}
def factors(q):
    """non-trivial factorisation over Q (sympy), or None"""
    if len(q) < 2 or len(q) > 60: return None
    k = pkey(q)
    if k in _fc: return _fc[k] and [f for f, _ in _fc[k]]
    r = _factor(q)
    _fc[k] = r
    return r and [f for f, _ in r]
def intquot(n, den):
    """a monomial t with integer coefficient and integer-valued atoms such that den * t cancels one term of n and
    removes more terms than it adds, or None"""
    dm = max(den, key=order)
    for m in sorted(n, key=order, reverse=True):
        md = dict(m); ok = True
        for a, e in dm:
            if md.get(a, 0) < e: ok = False; break
            md[a] -= e
        if not ok: continue
        t = tuple(sorted((a, e) for a, e in md.items() if e))
        if not all(ATOMS[a].isint for a, _ in t): continue
        k = Fraction(n[m]) / den[dm]
        k = math.floor(k)
        if not k: continue
        r = psub(n, pmul(den, {t: k}))
        if len(r) < len(n) or not t: return {t: k}
    return None
def factors_sq(q):
    if len(q) < 2 or len(q) > 60: return None
    factors(q)
    r = _fc[pkey(q)]
    if r and any(e > 1 for _, e in r): return r
    return None
def _factor(q):
    at = sorted(atoms_of(q))
    if len(at) > 14: return None
    deg = max(sum(e for _, e in m) for m in q)
    if deg < 2 or deg > 8: return None
    # linear in some variable with constant coefficient: irreducible
    for a in at:
        if ((a, 1),) in q and all(a not in dict(m) for m in q if m != ((a, 1),)): return None
    from sympy import ring, QQ
    R = ring(["x%d" % a for a in at], QQ)[0]
    p = R.zero
    d = {}
    for m, c in q.items():
        ex = dict(m); d[tuple(ex.get(a, 0) for a in at)] = QQ(Fraction(c).numerator, Fraction(c).denominator)
    p = R.from_dict(d)
    c, fs = p.factor_list()
    if len(fs) == 1 and fs[0][1] == 1: return None
    out = []
    for f, e in fs:
        g = {}
        for ex, cc in f.terms():
            g[tuple((a, x) for a, x in zip(at, ex) if x)] = nz(Fraction(int(cc.numerator), int(cc.denominator)))
        out.append((g, e))
    return out
