"""Hash-consed value graph (global value numbering).  Every value the interpreter computes is one node;
nodes are over the reals (floating point read as real arithmetic), machine integers and booleans."""
from fractions import Fraction
import math, itertools

class Node:
    __slots__ = ("op", "args", "id", "sort", "dbg", "_h")
    def __repr__(self): return show(self, 6)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

_tab = {}
_all = []
CUR_DBG = [None]

def mk(op, args, sort):
    k = (op, tuple(a.id if isinstance(a, Node) else ("#", a) for a in args), sort)
    n = _tab.get(k)
    if n is None:
        n = Node(); n.op = op; n.args = tuple(args); n.sort = sort; n.id = len(_all); n.dbg = CUR_DBG[0]
        _tab[k] = n; _all.append(n)
    return n

def show(n, d=8):
    if not isinstance(n, Node): return repr(n)
    if n.op == "c": return str(n.args[0])
    if n.op == "v": return n.args[0]
    if d <= 0: return "…"
    nm = n.op if n.op != "fn" else n.args[0]
    ar = n.args if n.op != "fn" else n.args[1:]
    if n.op in ("add", "mul", "div", "lt", "le", "eq", "sub"):
        s = {"add": "+", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==", "sub": "-"}[n.op]
        return "(" + s.join(show(a, d - 1) for a in ar) + ")"
    if n.op == "ite": return "(%s ? %s : %s)" % tuple(show(a, d - 1) for a in ar)
    return nm + "(" + ",".join(show(a, d - 1) for a in ar) + ")"

# ---------------------------------------------------------------- constants
def const(v, sort="R"):
    if sort == "B": v = bool(v)
    elif isinstance(v, Fraction) and v.denominator == 1: v = v.numerator
    return mk("c", (v,), sort)
TRUE = const(True, "B"); FALSE = const(False, "B")
def isc(n): return n.op == "c"
def cv(n): return n.args[0]
def var(name, sort="R"): return mk("v", (name,), sort)
PI = var("pi")
INF = var("inf")
ZERO = const(0); ONE = const(1)

_fp = {}
PIQ = Fraction(31415926535897932384626433832795028841971693993751, 10**49)
def simplest_rational(x, maxden=20000):
    """smallest-denominator rational that rounds to the double x, if its denominator is small"""
    if x == 0: return Fraction(0)
    fx = Fraction(x)
    if fx.denominator <= 1 << 20: return fx
    c = fx.limit_denominator(maxden)
    if c != 0 and float(c) == x and abs(c.numerator) < 10**9: return c
    return None
def fpconst(x):
    """value-graph node of a floating constant: exact rationals stay exact; doubles that are the correctly
    rounded value of a small rational, of a rational multiple of pi or of the square root of a small rational
    are read as that real number."""
    if x in _fp: return _fp[x]
    if x == math.inf: r = INF
    elif x == -math.inf: r = mul(const(-1), INF)
    elif x != x: r = var("nan")
    else:
        q = simplest_rational(x)
        if q is not None: r = const(q)
        else:
            r = None
            for k in (1, 2, 4, 8, 16, 3, 180, 360, 6, 12):
                for a in (Fraction(k), Fraction(1, k)):
                    if abs(x) == float(a) * math.pi or abs(x) == float(a * Fraction(math.pi)):
                        r = mul(const(a if x > 0 else -a), PI)
                    elif abs(x) == float(a / Fraction(math.pi)) or abs(x) == float(a)/math.pi:
                        r = div(const(a if x > 0 else -a), PI)
            if r is None:
                s = Fraction(x) * Fraction(x)
                c = s.limit_denominator(2000)
                if c > 0 and abs(float(c) - x * x) <= 4e-16 * x * x and math.sqrt(float(c)) == abs(x):
                    r = fn("sqrt", const(c))
                    if x < 0: r = mul(const(-1), r)
            if r is None:
                # q pi^k or sqrt(q pi^k) for a small rational q (constants folded by the compiler, a few roundings deep)
                for top in (2000, 100000):
                    for h, k in ((1, 1), (1, -1), (2, 1), (2, -1), (2, 0), (2, 2), (2, -2), (1, 2), (1, -2)):
                        v = Fraction(x) ** h / PIQ ** k
                        c = v.limit_denominator(top)
                        if c and abs(v - c) <= Fraction(h, 10**15) * abs(c) and abs(c.numerator) < 25 * top:
                            u = const(c)
                            for _ in range(abs(k)): u = mul(u, PI) if k > 0 else div(u, PI)
                            if h == 2:
                                u = fn("sqrt", u)
                                if x < 0: u = mul(const(-1), u)
                            r = u; break
                    if r is not None: break
            if r is None: r = const(Fraction(x))
    _fp[x] = r
    return r

# ---------------------------------------------------------------- real operations
def add(a, b):
    if isc(a) and isc(b): return const(cv(a) + cv(b))
    if isc(a) and cv(a) == 0: return b
    if isc(b) and cv(b) == 0: return a
    if a.id > b.id: a, b = b, a
    return mk("add", (a, b), "R")
def mul(a, b):
    if isc(a) and isc(b): return const(cv(a) * cv(b))
    if isc(b): a, b = b, a
    if isc(a):
        if cv(a) == 0: return ZERO
        if cv(a) == 1: return b
    elif a.id > b.id: a, b = b, a
    return mk("mul", (a, b), "R")
def neg(a): return mul(const(-1), a)
def sub(a, b):
    if a is b: return ZERO
    return add(a, neg(b))
def div(a, b):
    if isc(b) and cv(b) != 0: return mul(const(Fraction(1) / cv(b)), a)
    if isc(a) and cv(a) == 0 and b.op != "c": return ZERO if False else mk("div", (a, b), "R")
    return mk("div", (a, b), "R")
def fn(name, *args, sort="R"):
    if name == "sqrt" and isc(args[0]):
        q = Fraction(cv(args[0]))
        if q >= 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator: return const(Fraction(n, d))
    if name in ("floor", "ceil", "trunc") and isc(args[0]):
        q = cv(args[0]); return const({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[name](q))
    if name in ("sin", "tan", "asin", "atan", "sinh", "tanh") and isc(args[0]) and cv(args[0]) == 0: return ZERO
    if name in ("cos", "exp", "cosh") and isc(args[0]) and cv(args[0]) == 0: return ONE
    if name == "log" and isc(args[0]) and cv(args[0]) == 1: return ZERO
    if name == "pow":
        if isc(args[1]):
            e = Fraction(cv(args[1]))
            if e.denominator == 1 and abs(e.numerator) <= 64: return powi(args[0], e.numerator)
            if e == Fraction(1, 2): return fn("sqrt", args[0])
            if e.denominator == 2 and 0 < abs(e.numerator) <= 33:
                r = powi(fn("sqrt", args[0]), abs(e.numerator))
                return r if e > 0 else div(ONE, r)
    return mk("fn", (name,) + args, sort)
def powi(a, n):
    if n == 0: return ONE
    r = ONE; b = a; m = abs(n)
    while m:
        if m & 1: r = mul(r, b)
        m >>= 1
        if m: b = mul(b, b)
    return r if n > 0 else div(ONE, r)

# ---------------------------------------------------------------- booleans / comparisons (any numeric sort)
def signbit(x):
    """x < 0, through bitwise operators"""
    if isc(x): return const(cv(x) < 0, "B")
    if x.op == "fbits": return lt(x.args[0], ZERO)      # a float's sign bit (over the reals: -0 is 0)
    if x.op in ("ixor", "iand", "ior"):
        r = signbit(x.args[0])
        for y in x.args[1:]: r = {"ixor": bxor, "iand": band, "ior": bor}[x.op](r, signbit(y))
        return r
    return mk("lt", (x, iconst(0, width(x))), "B")
BITW = ("ixor", "iand", "ior", "fbits")
def bit(x, k):
    """bit k of an integer, as a condition: one form however it was isolated"""
    while True:
        if isc(x): return const(uns(x) >> k & 1, "B")
        a = x.args
        if x.op == "trunc": x = a[0]
        elif x.op == "zext" and a[0].sort != "B":
            if k >= width(a[0]): return FALSE
            x = a[0]
        elif x.op == "sext" and a[0].sort != "B": k = min(k, width(a[0]) - 1); x = a[0]
        elif x.op in ("ilshr", "iashr") and isc(a[1]) and uns(a[1]) < width(x):
            k += uns(a[1])
            if k >= width(x):
                if x.op == "ilshr": return FALSE
                k = width(x) - 1
            x = a[0]
        elif x.op == "iand" and (isc(a[0]) or isc(a[1])):
            m, y = (a[0], a[1]) if isc(a[0]) else (a[1], a[0])
            if not uns(m) >> k & 1: return FALSE
            x = y
        elif x.op == "ior" and (isc(a[0]) or isc(a[1])):
            m, y = (a[0], a[1]) if isc(a[0]) else (a[1], a[0])
            if uns(m) >> k & 1: return TRUE
            x = y
        elif x.op == "imul" and isc(a[0]) and uns(a[0]) & (uns(a[0]) - 1) == 0:
            j = uns(a[0]).bit_length() - 1
            if k < j: return FALSE
            k -= j; x = a[1]
        elif x.op == "cat":
            for y in a:
                if k < width(y): break
                k -= width(y)
            x = y
        elif x.op == "ite" and constleaves(x):
            key = (x.id, k); r = _bim.get(key)
            if r is None: r = _bim[key] = ite(a[0], bit(a[1], k), bit(a[2], k))
            return r
        else: break
    w = width(x)
    if k == w - 1: return signbit(x)
    y = x if k == 0 else mk("ilshr", (x, iconst(k, w)), x.sort)
    o = iconst(1, w); p, q = (y, o) if y.id <= o.id else (o, y)
    n = mk("iand", (p, q), x.sort); z = iconst(0, w)
    return bnot(mk("eq", (n, z), "B"))
def onebit(n):
    """(x, k) if n is bit k of x in place k"""
    if n.op == "iand" and len(n.args) == 2:
        for x, m in ((n.args[0], n.args[1]), (n.args[1], n.args[0])):
            if isc(m) and uns(m) and uns(m) & (uns(m) - 1) == 0: return x, uns(m).bit_length() - 1
def lt(a, b):
    if a is b: return FALSE
    if isc(a) and isc(b): return const(cv(a) < cv(b), "B")
    if a.op in BITW and isc(b) and cv(b) == 0: return signbit(a)
    if b.op in BITW and isc(a) and cv(a) == -1: return bnot(signbit(b))
    if a.op in ("trunc", "cat", "ilshr") and isc(b) and cv(b) == 0: return bit(a, width(a) - 1)
    if b.op in ("trunc", "cat", "ilshr") and isc(a) and cv(a) == -1: return bnot(bit(b, width(b) - 1))
    return mk("lt", (a, b), "B")
def le(a, b):
    if a is b: return TRUE
    if isc(a) and isc(b): return const(cv(a) <= cv(b), "B")
    if a.op in BITW and isc(b) and cv(b) == -1: return signbit(a)
    if b.op in BITW and isc(a) and cv(a) == 0: return bnot(signbit(b))
    if a.op in ("trunc", "cat", "ilshr") and isc(b) and cv(b) == -1: return bit(a, width(a) - 1)
    if b.op in ("trunc", "cat", "ilshr") and isc(a) and cv(a) == 0: return bnot(bit(b, width(b) - 1))
    return mk("le", (a, b), "B")
def eq(a, b):
    if a is b: return TRUE
    if isc(a) and isc(b): return const(cv(a) == cv(b), "B")
    if a.id > b.id: a, b = b, a
    if b.op == "ite" and isc(a): a, b = b, a
    if a.sort[0] == "I":
        if isc(a): a, b = b, a
        if a.op == "ixor" and len(a.args) == 2 and isc(b) and cv(b) == 0: return eq(a.args[0], a.args[1])
        pa = catparts(a, b)
        if pa:
            r = TRUE
            for x, y in zip(*pa): r = band(r, eq(x, y))
            return r
        if isc(b) and a.op == "iand":
            q = onebit(a)
            if q:
                if cv(b) == 0: return bnot(bit(*q))
                return bit(*q) if uns(b) == 1 << q[1] else FALSE
        if a.op == "ior" and isc(b) and cv(b) == 0: return band(eq(a.args[0], b), eq(a.args[1], b))
        if a.op == "iand" and isc(b) and cv(b) == 0 and len(a.args) == 2:
            # a float's bits without the sign are 0 iff it is +-0
            for x, m in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if x.op == "fbits" and isc(m) and uns(m) == (1 << (width(x) - 1)) - 1: return eq(x.args[0], ZERO)
        if a.op == "zext" and isc(b):
            x = a.args[0]
            if x.sort == "B": pass
            elif uns(b) >> width(x): return FALSE
            else: return eq(x, iconst(uns(b), width(x)))
        if a.op == "zext" and b.op == "zext" and a.args[0].sort == b.args[0].sort and a.args[0].sort != "B": return eq(a.args[0], b.args[0])
        if a.id > b.id: a, b = b, a
    if a.op == "ite" and isc(b) and constleaves(a):
        k = (a.id, b.id); r = _eqm.get(k)
        if r is None: r = _eqm[k] = ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        return r
    return mk("eq", (a, b), "B")
_eqm, _icm, _ibm, _bim = {}, {}, {}, {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B":
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return bnot(c)
    if c.op == "not": return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk("ite", (c, a, b), a.sort)
def bnot(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == "not": return c.args[0]
    if c.op == "lt": return le(c.args[1], c.args[0])
    if c.op == "le": return lt(c.args[1], c.args[0])
    return mk("not", (c,), "B")
def band(a, b): return ite(a, b, FALSE)
def bor(a, b): return ite(a, TRUE, b)
def bxor(a, b): return ite(a, bnot(b), b)

# ---------------------------------------------------------------- integers (sort "I<width>")
def isint(n): return n.sort[0] == "I"
def width(n): return int(n.sort[1:])
def wrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) and w > 1 else v
def iconst(v, w): return mk("c", (wrap(int(v), w),), "I%d" % w)
def uns(n):
    return cv(n) & ((1 << width(n)) - 1)
_cl = {}
def constleaves(n):
    """a nest of conditionals whose leaves are all constants"""
    if n.op == "c": return True
    if n.op != "ite": return False
    r = _cl.get(n.id)
    if r is None: r = _cl[n.id] = constleaves(n.args[1]) and constleaves(n.args[2])
    return r
def catparts(a, b):
    """matching byte-part decompositions of two integers, at least one of which is a concatenation"""
    if a.op != "cat" and b.op != "cat": return None
    ref = a if a.op == "cat" else b
    ws = [width(x) for x in ref.args]
    def parts(n):
        if n.op == "cat": return list(n.args) if [width(x) for x in n.args] == ws else None
        if isc(n):
            out = []; p = 0
            for k in ws: out.append(iconst(uns(n) >> p, k)); p += k
            return out
        if n.op == "zext" and n.args[0].sort != "B" and width(n.args[0]) == ws[0]:
            return [n.args[0]] + [iconst(0, k) for k in ws[1:]]
        if n.op == "imul" and isc(n.args[0]) and n.args[1].op == "zext" and n.args[1].args[0].sort != "B":
            k = uns(n.args[0]).bit_length() - 1; p = 0; x = n.args[1].args[0]
            if uns(n.args[0]) == 1 << k:
                for i, q in enumerate(ws):
                    if p == k and q == width(x): return [iconst(0, z) for z in ws[:i]] + [x] + [iconst(0, z) for z in ws[i+1:]]
                    p += q
        return None
    pa, pb = parts(a), parts(b)
    return (pa, pb) if pa and pb else None
def mkcat(parts):
    w = sum(width(x) for x in parts)
    if all(isc(x) for x in parts):
        r = 0; p = 0
        for x in parts: r |= uns(x) << p; p += width(x)
        return iconst(r, w)
    if len(parts) == 2:
        # the two halves of one value
        lo, hi = parts
        if hi.op == "trunc" and hi.args[0].op == "ilshr":
            x, k = hi.args[0].args
            if width(x) == w and isc(k) and uns(k) == width(lo) and icast("trunc", x, width(lo)) is lo: return x
    return mk("cat", tuple(parts), "I%d" % w)
def ibin(op, a, b, w):
    s = "I%d" % w
    if op in ("xor", "or", "and") and not (isc(a) and isc(b)):
        pa = catparts(a, b)
        if pa: return mkcat(tuple(ibin(op, x, y, width(x)) for x, y in zip(*pa)))
    if op == "or" and not isc(a) and not isc(b):
        # low | high << k, of parts that tile the word
        for p, q in ((a, b), (b, a)):
            if p.op == "zext" and p.args[0].sort != "B" and q.op == "imul" and isc(q.args[0]) and q.args[1].op in ("zext", "sext") and q.args[1].args[0].sort != "B":
                lo, hi = p.args[0], q.args[1].args[0]
                if uns(q.args[0]) == 1 << width(lo) and width(lo) + width(hi) == w: return mkcat((lo, hi))
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        ux, uy = uns(a), uns(b)
        if op == "add": return iconst(x + y, w)
        if op == "sub": return iconst(x - y, w)
        if op == "mul": return iconst(x * y, w)
        if op == "and": return iconst(ux & uy, w)
        if op == "or": return iconst(ux | uy, w)
        if op == "xor": return iconst(ux ^ uy, w)
        if op in ("shl", "lshr", "ashr") and uy >= w: return mk("fn", ("poison_shift", a, b), "I%d" % w)
        if op == "shl": return iconst(ux << uy, w)
        if op == "lshr": return iconst(ux >> uy, w)
        if op == "ashr": return iconst(x >> uy, w)
        if y != 0:
            if op == "sdiv": q = abs(x) // abs(y); return iconst(q if (x < 0) == (y < 0) else -q, w)
            if op == "srem": r = abs(x) % abs(y); return iconst(-r if x < 0 else r, w)
            if op == "udiv": return iconst(ux // uy, w)
            if op == "urem": return iconst(ux % uy, w)
    if a.op == "cat" and isc(b) and op in ("lshr", "shl", "and"):
        k = uns(b); p = 0
        if op == "lshr":
            for i, x in enumerate(a.args):
                if p == k and i: return mkcat(a.args[i:] + ((iconst(0, k),) if k else ()))
                p += width(x)
    # push through conditional constants
    for (p, q, sw) in ((a, b, False), (b, a, True)):
        if p.op == "ite" and isc(q) and constleaves(p):
            f = (lambda u: ibin(op, q, u, w)) if sw else (lambda u: ibin(op, u, q, w))
            k = (op, p.id, q.id, sw, w); r = _ibm.get(k)
            if r is None: r = _ibm[k] = ite(p.args[0], f(p.args[1]), f(p.args[2]))
            return r
    if op == "sub":
        if a is b: return iconst(0, w)
        return ibin("add", a, ibin("mul", iconst(-1, w), b, w), w)
    if op == "add":
        if isc(a) and cv(a) == 0: return b
        if isc(b) and cv(b) == 0: return a
    if op == "mul":
        if isc(b): a, b = b, a
        if isc(a) and cv(a) == 0: return iconst(0, w)
        if isc(a) and cv(a) == 1: return b
    if op in ("add", "mul", "and", "or", "xor") and a.id > b.id and not (op == "mul" and isc(a)): a, b = b, a
    if op == "shl" and isc(b): return ibin("mul", iconst(1 << uns(b), w), a, w)
    if op in ("and", "or", "xor"):
        for p, q in ((a, b), (b, a)):
            if isc(p):
                if cv(p) == 0: return iconst(0, w) if op == "and" else q
                if cv(p) == -1:
                    if op == "and": return q
                    if op == "or": return iconst(-1, w)
                if op == "and" and uns(p) & (uns(p) - 1) == 0:
                    k = uns(p).bit_length() - 1; t = bit(q, k)
                    if t.op == "c": return iconst(uns(p) if t is TRUE else 0, w)
        if a is b: return iconst(0, w) if op == "xor" else a
        if op == "xor": return xor_norm(a, b, w)
    if op in ("lshr", "ashr", "shl") and isc(b) and cv(b) == 0: return a
    return mk("i" + op, (a, b), s)
def xor_norm(a, b, w):
    ts = {}
    c = 0
    def coll(n):
        nonlocal c
        if n.op == "ixor":
            for x in n.args: coll(x)
        elif isc(n): c ^= uns(n)
        else: ts[n.id] = None if n.id in ts and ts[n.id] is not None else n
    coll(a); coll(b)
    l = [ts[k] for k in sorted(ts) if ts[k] is not None]
    if c: l.append(iconst(c, w))
    if not l: return iconst(0, w)
    if len(l) == 1: return l[0]
    return mk("ixor", tuple(l), "I%d" % w)
def icast(kind, a, w):
    if a.sort == "B":
        one = iconst(-1 if kind == "sext" else 1, w)
        return ite(a, one, iconst(0, w))
    w0 = width(a)
    if isc(a):
        return iconst(uns(a) if kind == "zext" else cv(a), w)
    if a.op == "ite" and constleaves(a):
        k = (kind, a.id, w); r = _icm.get(k)
        if r is None: r = _icm[k] = ite(a.args[0], icast(kind, a.args[1], w), icast(kind, a.args[2], w))
        return r
    if kind == "trunc":
        if a.op in ("zext", "sext") and width(a.args[0]) == w: return a.args[0]
        if a.op in ("zext", "sext") and width(a.args[0]) > w: return icast("trunc", a.args[0], w)
        if a.op == "trunc": return icast("trunc", a.args[0], w)
        if a.op == "cat" and width(a.args[0]) == w: return a.args[0]
        if a.op == "cat" and width(a.args[0]) > w: return icast("trunc", a.args[0], w)
        if a.op == "cat":
            p = 0
            for i, x in enumerate(a.args):
                p += width(x)
                if p == w: return mkcat(a.args[:i+1])
        if a.op in ("iadd", "imul", "iand", "ior"):
            return ibin(a.op[1:], icast("trunc", a.args[0], w), icast("trunc", a.args[1], w), w)
        if a.op == "ixor":
            r = icast("trunc", a.args[0], w)
            for x in a.args[1:]: r = ibin("xor", r, icast("trunc", x, w), w)
            return r
        if a.op == "ite": return ite(a.args[0], icast("trunc", a.args[1], w), icast("trunc", a.args[2], w))
    return mk(kind, (a,), "I%d" % w)
def itrunc_bool(a):
    if isc(a): return const(cv(a) & 1, "B")
    if a.op == "ite": return ite(a.args[0], itrunc_bool(a.args[1]), itrunc_bool(a.args[2]))
    if a.op == "zext" and a.args[0].sort == "B": return a.args[0]
    return bit(a, 0)
def ultu(a, b, strict):
    """unsigned comparison"""
    if isc(a) and isc(b):
        return const(uns(a) < uns(b) if strict else uns(a) <= uns(b), "B")
    # high parts of a concatenation against a power of two
    if strict and a.op == "cat" and isc(b) and uns(b) and uns(b) & (uns(b) - 1) == 0:
        p = 0; k = uns(b).bit_length() - 1
        for i, x in enumerate(a.args):
            if p == k:
                r = TRUE
                for y in a.args[i:]: r = band(r, eq(y, iconst(0, width(y))))
                return r
            p += width(x)
    if not strict and isc(a) and uns(a) and b.op == "cat": return bnot(ultu(b, a, True))
    if strict and isc(a) and b.op == "cat" and (uns(a) + 1) & uns(a) == 0: return bnot(ultu(b, iconst(uns(a) + 1, width(a)), True))
    if not strict and a.op == "cat" and isc(b) and (uns(b) + 1) & uns(b) == 0: return ultu(a, iconst(uns(b) + 1, width(b)), True)
    if strict and isc(b) and cv(b) == 1: return eq(a, iconst(0, width(a)))
    if a.op == "zext" and a.args[0].sort != "B" and isc(b):
        w = width(a.args[0])
        if uns(b) >> w: return TRUE
        return ultu(a.args[0], iconst(uns(b), w), strict)
    return mk("ult" if strict else "ule", (a, b), "B")
def itor(a, signed=True):
    if isc(a): return const(cv(a) if signed else uns(a))
    if a.op == "ite": return ite(a.args[0], itor(a.args[1], signed), itor(a.args[2], signed))
    if a.op == "iand":
        q = onebit(a)
        if q and (q[1] < width(a) - 1 or not signed): return ite(bit(*q), const(1 << q[1]), const(0))
    if a.op == "ilshr" and isc(a.args[1]) and uns(a.args[1]) == width(a) - 1: return ite(bit(a, 0), const(1), const(0))
    return mk("itor" if signed else "utor", (a,), "R")

# ---------------------------------------------------------------- symbolic derivative
_dc = {}
def diff(n, x):
    k = (n.id, x.id)
    if k in _dc: return _dc[k]
    r = _diff(n, x); _dc[k] = r
    return r
def _diff(n, x):
    if n is x: return ONE
    if n.op in ("c", "v"): return ZERO
    a = n.args
    if n.op == "add": return add(diff(a[0], x), diff(a[1], x))
    if n.op == "mul": return add(mul(diff(a[0], x), a[1]), mul(a[0], diff(a[1], x)))
    if n.op == "div":
        return sub(div(diff(a[0], x), a[1]), div(mul(a[0], diff(a[1], x)), mul(a[1], a[1])))
    if n.op == "ite": return ite(a[0], diff(a[1], x), diff(a[2], x))
    if n.op in ("itor", "utor") or isinstance(n.sort, str) and n.sort[0] == "I": return ZERO
    if n.op == "fn":
        f = a[0]; u = a[1]
        d = lambda i=1: diff(a[i], x)
        if f == "sqrt": return div(d(), mul(const(2), n))
        if f == "sin": return mul(fn("cos", u), d())
        if f == "cos": return neg(mul(fn("sin", u), d()))
        if f == "tan": return div(d(), powi(fn("cos", u), 2))
        if f == "asin": return div(d(), fn("sqrt", sub(ONE, mul(u, u))))
        if f == "acos": return neg(div(d(), fn("sqrt", sub(ONE, mul(u, u)))))
        if f == "atan": return div(d(), add(ONE, mul(u, u)))
        if f == "exp": return mul(n, d())
        if f == "log": return div(d(), u)
        if f == "sinh": return mul(fn("cosh", u), d())
        if f == "cosh": return mul(fn("sinh", u), d())
        if f == "tanh": return mul(sub(ONE, powi(n, 2)), d())
        if f == "abs": return ite(lt(u, ZERO), neg(d()), d())
        if f in ("floor", "ceil", "trunc", "round"): return ZERO
        if f == "atan2":
            y, z = a[1], a[2]
            return div(sub(mul(z, d(1)), mul(y, d(2))), add(mul(y, y), mul(z, z)))
        if f == "pow":
            b, e = a[1], a[2]
            db, de = d(1), d(2)
            t1 = mul(mul(e, fn("pow", b, sub(e, ONE))), db) if db is not ZERO else ZERO
            t2 = mul(mul(n, fn("log", b)), de) if de is not ZERO else ZERO
            return add(t1, t2)
        if all(diff(y, x) is ZERO for y in a[1:] if isinstance(y, Node)): return ZERO
    raise NotImplementedError("derivative of " + n.op + " " + str(n.args[0] if n.op == "fn" else ""))

def deps(ns):
    seen = set(); st = [n for n in ns]; out = []
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id); out.append(n)
        for a in n.args:
            if isinstance(a, Node): st.append(a)
    return out
