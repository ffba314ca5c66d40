"""Builds the value graph of a function from its LLVM IR in one pass: every branch whose condition is not a
constant is executed on both sides up to its immediate post-dominator and the two abstract states are merged
there with conditional (gamma) nodes.  Paths are never enumerated separately past the join."""
import json, re, sys, math
from fractions import Fraction
from . import expr as E
from .range import Range
from .expr import Node, ite, iconst, const, TRUE, FALSE

class Unsupported(Exception): pass
class Budget(Exception): pass

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return "&%s+%s" % (s.obj, s.off)
class PIte:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class FnPtr:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
I0 = iconst(0, 64)
NULL = Ptr(None, I0)
DONE = -7      # predecessor marker: the phis of the join were already merged
class _Undef:
    def __repr__(s): return "undef"
UNDEF = _Undef()

def samep(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and a.off is b.off
    if isinstance(a, PIte) and isinstance(b, PIte): return a.c is b.c and samep(a.a, b.a) and samep(a.b, b.b)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
    return False

def vite(c, a, b):
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, list) and isinstance(b, list): return [vite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Node) and isinstance(b, Node):
        if a.sort != b.sort: return UNDEF
        return ite(c, a, b)
    if samep(a, b): return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
        return Ptr(a.obj, ite(c, a.off, b.off))
    if isinstance(a, (Ptr, PIte, FnPtr)) and isinstance(b, (Ptr, PIte, FnPtr)): return PIte(c, a, b)
    raise Unsupported("merge of %r and %r" % (type(a), type(b)))

OUTSIDE = "access outside of a local object"
class Fault(Exception):
    """a memory-safety violation on the path being analysed"""
class Dead(Fault):
    """the program's behaviour is undefined on the path being analysed (which must then be shown not to occur)"""

def valset(n, memo, lim=64):
    """every value the integer node can take, when it chooses among constants"""
    r = memo.get(n.id, 0)
    if r != 0: return r
    r = None
    if E.isc(n): r = frozenset((E.cv(n),))
    elif n.op == "ite":
        a, b = valset(n.args[1], memo, lim), valset(n.args[2], memo, lim)
        if a is not None and b is not None: r = a | b
    elif n.op in ("iadd", "imul") and len(n.args) == 2:
        a, b = valset(n.args[0], memo, lim), valset(n.args[1], memo, lim); w = E.width(n)
        if a is not None and b is not None and len(a) * len(b) <= 4096: r = frozenset(E.wrap(x + y if n.op == "iadd" else x * y, w) for x in a for y in b)
    elif n.op == "sext" and n.args[0].sort != "B": r = valset(n.args[0], memo, lim)
    if r is not None and len(r) > lim: r = None
    memo[n.id] = r
    return r

class Obj:
    __slots__ = ("cells", "kind", "size", "zero", "name", "freed", "shared", "symst", "exists")
    def __init__(s, kind, size, name, zero=False):
        s.cells = {}; s.kind = kind; s.size = size; s.name = name; s.zero = zero; s.freed = FALSE; s.exists = TRUE; s.shared = False; s.symst = 0
    def clone(s):
        o = Obj(s.kind, s.size, s.name, s.zero); o.cells = dict(s.cells); o.freed = s.freed; o.exists = s.exists; o.symst = s.symst
        return o

class State:
    __slots__ = ("mem",)
    def __init__(s): s.mem = {}
    def fork(s):
        t = State(); t.mem = dict(s.mem)
        for o in t.mem.values(): o.shared = True
        return t
    def w(s, k):
        o = s.mem[k]
        if o.shared:
            o = o.clone(); s.mem[k] = o
        return o

_szc = {}
def tsize(t):
    if t in _szc: return _szc[t]
    if t == "double" or t == "ptr": r = 8
    elif t == "float": r = 4
    elif t == "half": r = 2
    elif t in ("x86_fp80", "fp128"): r = 16
    elif t[0] == "i": r = max(1, (int(t[1:]) + 7) // 8)
    elif t[0] in "<[":
        m = re.match(r"[<\[](\d+)x(.*)[>\]]$", t); r = int(m.group(1)) * tsize(m.group(2))
    elif t[0] == "{":
        r = 0; al = 1
        for e in fields(t):
            a = talign(e); al = max(al, a); r = (r + a - 1) // a * a + tsize(e)
        r = (r + al - 1) // al * al
    else: raise Unsupported("type " + t)
    _szc[t] = r
    return r
def talign(t):
    if t[0] == "{": return max([talign(e) for e in fields(t)] or [1])
    if t[0] in "[":
        return talign(re.match(r"[\[](\d+)x(.*)[\]]$", t).group(2))
    return min(tsize(t), 16)
def fields(t):
    out = []; d = 0; cur = ""
    for ch in t[1:-1]:
        if ch in "{[<": d += 1
        if ch in "}]>": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur: out.append(cur)
    return out
def elems(t):
    """list of (offset, type) of the components of an aggregate/vector type"""
    if t[0] in "<[":
        m = re.match(r"[<\[](\d+)x(.*)[>\]]$", t); e = m.group(2); s = tsize(e)
        return [(i * s, e) for i in range(int(m.group(1)))]
    r = 0; out = []
    for e in fields(t):
        a = talign(e); r = (r + a - 1) // a * a; out.append((r, e)); r += tsize(e)
    return out
def isfp(t): return t in ("double", "float", "half", "x86_fp80", "fp128")

MATH1 = {n: n for n in "sin cos tan asin acos atan exp log sqrt floor ceil trunc sinh cosh tanh asinh acosh atanh cbrt round rint nearbyint expm1 log1p log2 log10 tgamma lgamma erf".split()}
ALIAS = {"fabs": "abs"}

class Module:
    def __init__(self, path):
        with open(path) as f: d = json.load(f)
        self.fns = d["functions"]; self.globs = d["globals"]
        self.pd = {}

    def postdom(self, name):
        if name in self.pd: return self.pd[name]
        fn = self.fns[name]; B = fn["blocks"]; n = len(B)
        succ = []
        dead = [False] * n
        for i, b in enumerate(B):
            t = b[-1]; op = t["op"]
            if op == "br": s = list(dict.fromkeys(t["succ"]))
            elif op == "switch": s = list(dict.fromkeys([t["def"]] + [c[1] for c in t["cases"]]))
            elif op == "invoke": s = [t["succ"][0]]
            elif op == "ret": s = [n]
            else: s = []
            succ.append(s)
        # blocks that cannot reach a return
        reach = {n}; ch = True
        while ch:
            ch = False
            for i in range(n):
                if i not in reach and any(s in reach for s in succ[i]): reach.add(i); ch = True
        live = [i for i in range(n) if i in reach]
        full = frozenset(live) | {n}
        pdom = {i: full for i in live}; pdom[n] = frozenset([n])
        ch = True
        order = live[::-1]
        while ch:
            ch = False
            for i in order:
                ss = [pdom[s] for s in succ[i] if s in reach]
                new = frozenset.intersection(*ss) | {i}
                if new != pdom[i]: pdom[i] = new; ch = True
        ip = {}
        for i in live:
            c = [j for j in pdom[i] if j != i]
            # immediate: the one with the largest pdom set
            ip[i] = max(c, key=lambda j: len(pdom[j]))
        r = (ip, reach, n)
        self.pd[name] = r
        return r

class Interp:
    icache = {}
    def __init__(self, mod, maxsteps=3000000, hooks=None):
        self.m = mod; self.steps = 0; self.maxsteps = maxsteps
        self.heap = bool((hooks or {}).get("heap")); self.nobj = 0; self.deaths = []; self.pc = []; self.assumes = []; self._vs = {}
        self.hooks = hooks or {}
        self.trace = []
        self.fstack = []
        self.visited = set()
        self.lines = set()
        self.inputs = {}
        self.elts = {}
        self.ginit = False

    # ------------------------------------------------------------ memory
    def new(self, st, kind, size, name, zero=False):
        self.nobj += 1
        k = "%s#%d" % (name, self.nobj)
        st.mem[k] = o = Obj(kind, size, name, zero)
        if kind == "heap": o.exists = self.pathcond()
        return k
    def pathcond(self):
        c = TRUE
        for x in self.pc: c = E.band(c, x)
        return c
    def fault(self, why, cond=TRUE):
        c = E.band(self.pathcond(), cond)
        if c is not FALSE: self.deaths.append((c, why))
    def access(self, o, off, s):
        """heap discipline: the s bytes at off belong to a live object"""
        if o.size is not None and not 0 <= off <= o.size - s: raise Fault("access outside of the object")
        if o.freed is TRUE: raise Fault("access to released storage")
        if o.freed is not FALSE: self.fault("access to released storage", o.freed)
    def bounds(self, st, p, s, cond=None):
        o = st.mem.get(p.obj)
        if o is not None and o.kind == "alloca" and o.size is not None and not 0 <= E.cv(p.off) <= o.size - s:
            self.fault(OUTSIDE, TRUE if cond is None else cond)
    def shadow(self, st, p):
        """typestate of the element at p: 1 while it is alive"""
        if not isinstance(p, Ptr) or not E.isc(p.off): raise Unsupported("element address")
        if p.obj is None: raise Fault("element at a null address")
        k = "sh:" + p.obj; off = E.cv(p.off)
        if k not in st.mem: st.mem[k] = Obj("alloca", None, k, True)
        self.access(st.mem[p.obj], off, 1)
        c = st.mem[k].cells.get(off)
        return k, off, c[0] if c else I0
    def track(self, what, p, st):
        k, off, v = self.shadow(st, p)
        alive = E.bnot(E.eq(v, I0))
        if what == "born":
            self.fault("element constructed over a live element", alive); st.w(k).cells[off] = (iconst(1, 64), 8)
        else:
            self.fault("element destroyed while not alive" if what == "dies" else "element used while not alive", E.bnot(alive))
            if what == "dies": st.w(k).cells[off] = (I0, 8)
        return UNDEF
    def release(self, st, p, kind):
        if isinstance(p, PIte):
            raise Unsupported("conditional release")
        if p is UNDEF: raise Fault("release of an indeterminate pointer")
        if isinstance(p, Node): raise Fault("release of a wild pointer")
        if not isinstance(p, Ptr): raise Unsupported("release of %r" % (p,))
        if p.obj is None: return
        o = st.mem.get(p.obj)
        if o is None or o.kind != "heap" or not E.isc(p.off) or E.cv(p.off) != 0: raise Fault("release of storage that was not allocated")
        if p.obj.split("#")[0] != kind: raise Fault("release that does not match the allocation")
        if o.freed is TRUE: raise Fault("storage released twice")
        self.fault("storage released twice", o.freed)
        sh = st.mem.get("sh:" + p.obj)
        for off, c in (sh.cells.items() if sh else ()): self.fault("storage released while it holds live elements", E.bnot(E.eq(c[0], I0)))
        st.w(p.obj).freed = TRUE
    def atexit(self, st):
        """nothing allocated is left, nothing alive is left"""
        for k, o in st.mem.items():
            if o.kind == "heap" and o.freed is not TRUE: self.fault("storage never released", E.band(o.exists, E.bnot(o.freed)))
            if k.startswith("sh:"):
                for off, c in o.cells.items(): self.fault("element never destroyed", E.bnot(E.eq(c[0], I0)))
    def globobj(self, st, g):
        k = "@" + g
        if k not in st.mem:
            gl = self.m.globs.get(g)
            if gl is None: raise Unsupported("global " + g)
            o = Obj("global", gl["size"], g)
            if gl["init"] is not None:
                for off, t, v in gl["init"]:
                    val = self.cval(v, st)
                    if t[0] in "<":
                        for (eo, et), ev in zip(elems(t), val): o.cells[off + eo] = (ev, tsize(et))
                    else: o.cells[off] = (val, tsize(t))
            else: o.kind = "extern"
            o.zero = gl["init"] is not None
            st.mem[k] = o
        return k
    def zero(self, t):
        if isfp(t): return E.ZERO
        if t == "i1": return FALSE
        if t[0] == "i": return iconst(0, int(t[1:]))
        if t == "ptr": return NULL
        return [self.zero(e) for _, e in elems(t)]
    def conv(self, v, t):
        """reinterpret stored value v as type t of the same size"""
        if v is UNDEF: return UNDEF
        if isfp(t):
            if isinstance(v, Node):
                if v.sort == "R": return v
                if v.op == "fbits": return v.args[0]
                if E.isc(v): return self.bits2fp(v)
                if v.op == "ite":
                    k = (v.id, t); r = self.icache.get(k)
                    if r is None: r = self.icache[k] = ite(v.args[0], self.conv(v.args[1], t), self.conv(v.args[2], t))
                    return r
                return E.mk("bitsf", (v,), "R")
        elif t == "ptr":
            if isinstance(v, (Ptr, PIte, FnPtr)): return v
            if isinstance(v, Node) and E.isc(v) and E.cv(v) == 0: return NULL
            if self.heap and isinstance(v, Node) and (E.isc(v) or v.sort == "R"): raise Fault("load of a pointer where another value is stored")
        elif t[0] == "i":
            w = int(t[1:])
            if isinstance(v, Node):
                if v.sort == "R":
                    if v.op == "bitsf" and v.args[0].sort == t.upper(): return v.args[0]
                    return self.fp2bits(v, w)
                if v.sort == "B":
                    if w == 1: return v
                    return E.icast("zext", v, w)
                if E.width(v) == w: return v
                if w == 1: return E.itrunc_bool(v)
                if w == 8 and v.sort == "B": return E.icast("zext", v, 8)
                if E.width(v) < w: return E.icast("zext", v, w)
            if isinstance(v, Ptr) and v.obj is None: return iconst(0, w)
            if isinstance(v, (Ptr, PIte, FnPtr)): return v
        raise Unsupported("reinterpret %r as %s" % (v, t))
    def fp2bits(self, v, w):
        if E.isc(v) and w in (32, 64):
            import struct
            return iconst(int.from_bytes(struct.pack("<d" if w == 64 else "<f", float(E.cv(v))), "little"), w)
        if v.op == "ite":
            k = ("fb", v.id, w); r = self.icache.get(k)
            if r is None: r = self.icache[k] = ite(v.args[0], self.fp2bits(v.args[1], w), self.fp2bits(v.args[2], w))
            return r
        return E.mk("fbits", (v,), "I%d" % w)
    def bits2fp(self, v):
        import struct
        w = E.width(v)
        if w == 64: return E.fpconst(struct.unpack("<d", E.uns(v).to_bytes(8, "little"))[0])
        if w == 32: return E.fpconst(struct.unpack("<f", E.uns(v).to_bytes(4, "little"))[0])
        raise Unsupported("bits2fp")
    def inputcell(self, o, off, t):
        nm = o.name; elt = self.elts.get(nm, "double")
        es = tsize(elt)
        if off % es: raise Unsupported("input load %s of %s at %d" % (t, nm, off))
        if tsize(t) != es:
            if tsize(t) > es and t[0] == "i" and tsize(t) % es == 0:
                return E.mk("cat", tuple(self.conv(self.inputcell(o, off + k, elt), "i%d" % (8 * es)) for k in range(0, tsize(t), es)), "I%d" % (8 * tsize(t)))
            if tsize(t) < es and elt[0] == "i": return self.extract(self.inputcell(o, off, elt), 0, t)
            raise Unsupported("input load %s of %s at %d" % (t, nm, off))
        v = E.var("%s[%d]" % (nm, off // es), "R" if isfp(elt) else "B" if elt == "i1" else "I%s" % elt[1:])
        return v if t == elt else self.conv(v, t)
    def load1(self, st, obj, off, t):
        if obj is None:
            if self.heap: raise Fault("load through a null pointer")
            raise Unsupported("load through null")
        if obj not in st.mem: raise Unsupported("load from unknown object %s" % obj)
        o = st.mem[obj]; s = tsize(t)
        if self.heap: self.access(o, off, s)
        c = o.cells.get(off)
        if c is not None:
            if c[1] == s: return self.conv(c[0], t)
            if c[1] > s: return self.extract(c[0], 0, t)
            # several smaller cells -> integer or pointer copy
            parts = []; p = off
            while p < off + s:
                c2 = o.cells.get(p)
                if c2 is None:
                    if o.zero: c2 = (iconst(0, 32), 4)
                    else: break
                parts.append(c2); p += c2[1]
            if p == off + s and t[0] == "i": return E.mk("cat", tuple(self.conv(x, "i%d" % (8 * z)) if x is not UNDEF else iconst(0, 8 * z) for x, z in parts), "I%d" % (8 * s))
            if p >= off + s and t[0] == "i": pass
            if o.kind == "input": return self.inputcell(o, off, t)
            if all(x is UNDEF for x, _ in parts): return UNDEF
            raise Unsupported("load %s spans cells" % t)
        for k in range(1, 17):
            c = o.cells.get(off - k)
            if c is not None and c[1] > k:
                return self.extract(c[0], k, t)
        if o.kind == "input": return self.inputcell(o, off, t)
        if o.kind == "extern":
            return E.var("ext:%s[%d]" % (o.name, off), "R" if isfp(t) else "B" if t == "i1" else "I%s" % t[1:]) if t != "ptr" else self._extptr(st, o, off)
        if o.zero: return self.zero(t)
        return UNDEF
    def _extptr(self, st, o, off):
        raise Unsupported("pointer load from external " + o.name)
    def extract(self, v, byte, t):
        if v is UNDEF: return UNDEF
        if isinstance(v, Node) and isinstance(v.sort, str) and v.sort[0] == "I":
            w = tsize(t) * 8
            if v.op == "cat":
                p = 0
                for a in v.args:
                    if p == byte and E.width(a) == w: return self.conv(a, t)
                    p += E.width(a) // 8
            if v.op == "ite":
                return ite(v.args[0], self.extract(v.args[1], byte, t), self.extract(v.args[2], byte, t))
            x = v if byte == 0 else E.ibin("lshr", v, iconst(8 * byte, E.width(v)), E.width(v))
            return self.conv(E.icast("trunc", x, w), t)
        raise Unsupported("extract %s at +%d" % (t, byte))
    def load(self, st, p, t):
        if p is UNDEF:
            if self.heap: raise Fault("load through an indeterminate pointer")
            raise Dead("load through an indeterminate pointer")
        if isinstance(p, PIte) and self.heap:
            vs = []
            for c, q in ((p.c, p.a), (E.bnot(p.c), p.b)):
                self.pc.append(c)
                try: vs.append(self.load(st, q, t))
                except Fault as f: self.fault(str(f)); vs.append(UNDEF)
                finally: self.pc.pop()
            return vite(p.c, vs[0], vs[1])
        if isinstance(p, PIte):
            self.pc.append(p.c)
            try: a = self.load(st, p.a, t)
            finally: self.pc.pop()
            self.pc.append(E.bnot(p.c))
            try: b = self.load(st, p.b, t)
            finally: self.pc.pop()
            return vite(p.c, a, b)
        if t[0] in "<{[":
            return [self.load(st, self.padd(p, iconst(o, 64)), e) for o, e in elems(t)]
        if self.heap and isinstance(p, Node): raise Fault("load through a wild pointer")
        if not isinstance(p, Ptr): raise Unsupported("load from %r" % p)
        if E.isc(p.off):
            if not self.heap: self.bounds(st, p, tsize(t))
            return self.load1(st, p.obj, E.cv(p.off), t)
        cand = self.cands(st, p, t)
        if cand is not None:
            r = None
            for cond, off in reversed(cand):
                try: v = self.load1(st, p.obj, off, t)
                except Unsupported:
                    raise
                r = v if r is None else vite(cond, v, r)
            return r
        o = st.mem.get(p.obj)
        et = self.elts.get(o.name) if o is not None else None
        if o is not None and o.kind == "input" and o.symst == 0 and et and t != "ptr" and et != t and isfp(et) != isfp(t) and tsize(et) == tsize(t):
            return self.conv(self.load(st, p, et), t)      # copied as a word of the same size
        if o is not None and o.kind in ("input", "extern") and o.symst == 0 and t != "ptr":
            return E.mk("fn", ("load:%s:%s" % (o.name, t), p.off), "R" if isfp(t) else "B" if t == "i1" else "I%s" % t[1:])
        if o is not None and o.kind not in ("input", "extern") and o.symst == 0 and t != "ptr":
            # one of the cells of the object; anywhere else is outside of what was ever written
            cs = [off for off, c in sorted(o.cells.items()) if c[1] == tsize(t) and c[0] is not UNDEF]
            if 0 < len(cs) <= 64:
                r = E.var("nan", "R") if isfp(t) else E.mk("fn", ("load:undef:%s" % t, p.off), "B" if t == "i1" else "I%s" % t[1:])
                for off in reversed(cs): r = vite(E.eq(p.off, iconst(off, E.width(p.off))), self.load1(st, p.obj, off, t), r)
                return r
        raise Unsupported("symbolic load")
    def cands(self, st, p, t):
        o = st.mem.get(p.obj)
        if o is None: return None
        off = p.off
        if off.op == "ite":
            l = []
            def go(n, acc):
                if n.op == "ite":
                    go(n.args[1], E.band(acc, n.args[0])); go(n.args[2], E.band(acc, E.bnot(n.args[0])))
                elif E.isc(n) and len(l) < 64: l.append((acc, E.cv(n)))
                else: raise Unsupported("offset form")
            try: go(off, TRUE)
            except Unsupported: l = None
            if l and len(l) < 64: return l
        vs = valset(off, self._vs)
        if vs is not None: return [(E.eq(off, iconst(v, E.width(off))), v) for v in sorted(vs)]
        if o.size is None: return None
        lin = linear(off)
        if lin is None: return None
        c, terms = lin
        if len(terms) != 1: return None
        (n, k), = terms
        s = tsize(t); out = []
        if abs(k) < 1: return None
        i = -(c // k) - 300
        lo = math.ceil(Fraction(-c, k)) if k > 0 else math.ceil(Fraction(o.size - s - c, k))
        hi = math.floor(Fraction(o.size - s - c, k)) if k > 0 else math.floor(Fraction(-c, k))
        if hi - lo > 4096: return None
        for i in range(lo, hi + 1):
            out.append((E.eq(n, E.iconst(i, E.width(n))) if n.sort != "B" else (n if i == 1 else E.bnot(n)), c + k * i))
        return out or None
    def store1(self, st, obj, off, v, s):
        o = st.w(obj)
        if self.heap: self.access(o, off, s)
        for k in list(range(-15, s)):
            c = o.cells.get(off + k)
            if c is not None and off + k + c[1] > off and not (k == 0 and c[1] == s):
                # split a wider cell
                if k < 0 or c[1] > s:
                    del o.cells[off + k]
                    a, b = off + k, off + k + c[1]
                    if isinstance(c[0], Node) and c[0].op == "c" and c[0].sort[0] == "I":
                        for q in range(a, b):
                            if not (off <= q < off + s): o.cells[q] = (iconst((E.uns(c[0]) >> (8 * (q - a))) & 255, 8), 1)
                    elif isinstance(c[0], Node) and c[0].op == "cat":
                        q = a
                        for x in c[0].args:
                            z = E.width(x) // 8
                            if not (q < off + s and q + z > off): o.cells[q] = (x, z)
                            q += z
                    elif c[0] is not UNDEF and (k < 0 or off + k + c[1] > off + s): raise Unsupported("partial overwrite")
                else: del o.cells[off + k]
        o.cells[off] = (v, s)
    def store(self, st, p, v, t, cond=None):
        if isinstance(p, PIte):
            a = p.c if cond is None else E.band(cond, p.c); b = E.bnot(p.c) if cond is None else E.band(cond, E.bnot(p.c))
            self.store(st, p.a, v, t, a); self.store(st, p.b, v, t, b); return
        if t[0] in "<{[":
            es = elems(t)
            if v is UNDEF: v = [UNDEF] * len(es)
            for (o, e), x in zip(es, v): self.store(st, self.padd(p, iconst(o, 64)), x, e, cond)
            return
        if self.heap and (p is UNDEF or isinstance(p, Node)): raise Fault("store through an indeterminate pointer")
        if not isinstance(p, Ptr): raise Unsupported("store through %r" % p)
        if p.obj is None:
            if self.heap:
                if cond is None: raise Fault("store through a null pointer")
                self.fault("store through a null pointer", cond); return
            if cond is not None: return
            raise Unsupported("store through null")
        s = tsize(t)
        if t == "i1" and isinstance(v, Node) and v.sort == "B": pass
        if E.isc(p.off):
            off = E.cv(p.off)
            if not self.heap: self.bounds(st, p, s, cond)
            if cond is not None: v = vite(cond, v, self.load1(st, p.obj, off, t))
            self.store1(st, p.obj, off, v, s); return
        cand = self.cands(st, p, t)
        if cand is None:
            h = self.hooks.get("symstore")
            if h and h(self, st, p, v, t, cond): return
            raise Unsupported("symbolic store")
        for c, off in cand:
            cc = c if cond is None else E.band(cond, c)
            old = self.load1(st, p.obj, off, t)
            self.store1(st, p.obj, off, vite(cc, v, old) if old is not UNDEF else v, s)
    def padd(self, p, d):
        if isinstance(p, PIte): return PIte(p.c, self.padd(p.a, d), self.padd(p.b, d))
        if isinstance(p, Ptr): return Ptr(p.obj, E.ibin("add", p.off, d, 64))
        if p is UNDEF: return UNDEF
        raise Unsupported("gep on %r" % p)
    def memcpy(self, st, d, s, n):
        if isinstance(n, Node) and not E.isc(n):
            if n.op == "ite":   # conditional length, e.g. 0 or k
                raise Unsupported("memcpy of conditional length")
            raise Unsupported("memcpy of symbolic length")
        n = E.uns(n)
        if n == 0: return
        if isinstance(s, PIte) or isinstance(d, PIte) or not E.isc(s.off) or not E.isc(d.off):
            # element-wise, 8 or 4 byte pieces
            es = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            vals = [self.load(st, self.padd(s, iconst(k, 64)), "i%d" % (8 * es)) for k in range(0, n, es)]
            for i, v in enumerate(vals): self.store(st, self.padd(d, iconst(i * es, 64)), v, "i%d" % (8 * es))
            return
        if s.obj is None or d.obj is None:
            if self.heap: raise Fault("copy through a null pointer")
            raise Unsupported("memcpy null")
        so, do = E.cv(s.off), E.cv(d.off)
        if self.heap: self.access(st.mem[s.obj], so, n); self.access(st.mem[d.obj], do, n)
        else: self.bounds(st, s, n); self.bounds(st, d, n)
        src = st.mem[s.obj]
        if src.kind == "input":
            elt = self.elts.get(src.name, "double"); es = tsize(elt)
            src = st.w(s.obj)
            for k in range(0, n, es):
                if so + k not in src.cells:
                    src.cells[so + k] = (self.inputcell(src, so + k, elt), es)
        got = {}
        for off, c in src.cells.items():
            if so <= off and off + c[1] <= so + n: got[off] = c
            elif off < so + n and off + c[1] > so: raise Unsupported("memcpy cuts a cell")
        covered = sum(c[1] for c in got.values())
        dst = st.w(d.obj)
        for off in [o for o, c in dst.cells.items() if o < do + n and o + c[1] > do]:
            if off < do or off + dst.cells[off][1] > do + n: raise Unsupported("memcpy overwrites part of a cell")
            del dst.cells[off]
        if covered < n:
            if src.zero:
                k = 0
                pos = so
                for off in sorted(got) + [so + n]:
                    while pos < off:
                        z = 8 if (pos % 8 == 0 and off - pos >= 8) else 4 if (pos % 4 == 0 and off - pos >= 4) else 1
                        dst.cells[do + pos - so] = (iconst(0, 8 * z), z); pos += z
                    if off < so + n: pos = off + got[off][1]
            elif dst.zero:
                dst.zero = False if dst.kind != "global" else dst.zero
        for off, c in got.items(): dst.cells[do + off - so] = c
    def memset(self, st, d, v, n):
        if not E.isc(n): raise Unsupported("memset of symbolic length")
        n = E.uns(n)
        if not E.isc(v): raise Unsupported("memset value")
        b = E.uns(v)
        if isinstance(d, PIte): raise Unsupported("memset pite")
        if not E.isc(d.off): raise Unsupported("memset symbolic")
        do = E.cv(d.off); o = st.w(d.obj)
        if self.heap: self.access(o, do, n)
        for off in [q for q, c in o.cells.items() if q < do + n and q + c[1] > do]:
            if off < do or off + o.cells[off][1] > do + n: raise Unsupported("memset cuts a cell")
            del o.cells[off]
        pos = do
        while pos < do + n:
            r = do + n - pos
            z = 8 if r >= 8 and pos % 8 == 0 else 4 if r >= 4 and pos % 4 == 0 else 1
            o.cells[pos] = (iconst(int.from_bytes(bytes([b]) * z, "little"), 8 * z), z); pos += z

    # ------------------------------------------------------------ operands
    def cval(self, v, st, env=None):
        k = v["k"]
        if k == "r": 
            return env[v["v"]]
        if k == "int":
            if v["w"] == 1: return const(int(v["v"]) & 1, "B")
            return iconst(int(v["v"]), v["w"])
        if k == "fp":
            s = v["v"]
            if s in ("inf", "-inf", "nan"): x = float(s)
            else: x = float.fromhex(s)
            if v["t"] == "float" and x == x and abs(x) != math.inf:
                return self.f32const(x)
            return E.fpconst(x)
        if k == "null": return NULL
        if k == "undef":
            t = v["t"]
            if t[0] in "<{[": return [self.cval({"k": "undef", "t": e}, st) for _, e in elems(t)]
            return UNDEF
        if k == "zero": return self.zero(v["t"])
        if k == "agg": return [self.cval(x, st, env) for x in v["v"]]
        if k == "glob":
            if v["v"] in self.m.fns: return FnPtr(v["v"])
            return Ptr(self.globobj(st, v["v"]), I0)
        if k == "cgep":
            p = self.cval(v["base"], st, env)
            if not v["ok"] or v["vars"]: raise Unsupported("constant gep")
            return self.padd(p, iconst(v["off"], 64))
        if k == "md": return UNDEF
        if k == "cexpr":
            if v["op"] in ("ptrtoint", "inttoptr", "bitcast"): return self.cval(v["ops"][0], st, env)
        raise Unsupported("operand " + k)
    def f32const(self, x):
        from fractions import Fraction as F
        import struct
        q = F(x)
        if q.denominator <= 1 << 12: return const(q)
        c = q.limit_denominator(2000)
        if struct.unpack("<f", struct.pack("<f", float(c)))[0] == x: return const(c)
        for k in (1, 2, 4, 8, 3, 180):
            for a in (k, 1.0 / k):
                if struct.unpack("<f", struct.pack("<f", a * math.pi))[0] == abs(x): return E.mul(const(F(k) if a == k else F(1, k)), E.PI) if x > 0 else E.neg(E.mul(const(F(k) if a == k else F(1, k)), E.PI))
        s = q * q; c = s.limit_denominator(200)
        if c > 0 and struct.unpack("<f", struct.pack("<f", math.sqrt(float(c))))[0] == abs(x):
            r = E.fn("sqrt", const(c)); return r if x > 0 else E.neg(r)
        return const(q)

    # ------------------------------------------------------------ execution
    def call(self, name, args, st):
        fn = self.m.fns[name]
        if len(self.fstack) > 200: raise Budget("call depth")
        self.fstack.append(name); self.visited.add(name)
        env = {i: a for i, a in enumerate(args)}
        for i, a in enumerate(fn["args"]):
            if a["byval"]:
                k = self.new(st, "alloca", a["byval"], "byval")
                self.memcpy(st, Ptr(k, I0), args[i], iconst(a["byval"], 64)); env[i] = Ptr(k, I0)
        r = self.run(name, 0, None, env, st, len(fn["blocks"]))
        self.fstack.pop()
        return r   # None if the call never returns, else (state, env)

    def merge_states(self, c, a, b):
        r = State(); r.mem = dict(a.mem)
        for k, ob in b.mem.items():
            oa = a.mem.get(k)
            if oa is None:
                r.mem[k] = ob; ob.shared = True
                if k.startswith("sh:"):
                    r.mem[k] = n = ob.clone(); n.cells = {q: (vite(c, I0, x[0]), x[1]) for q, x in ob.cells.items()}
                continue
            if oa is ob: continue
            n = oa.clone(); n.freed = oa.freed if oa.freed is ob.freed else ite(c, oa.freed, ob.freed)
            keys = set(oa.cells) | set(ob.cells)
            for q in keys:
                x, y = oa.cells.get(q), ob.cells.get(q)
                if x is not None and y is not None:
                    if x[1] == y[1]:
                        if x[0] is y[0]: continue
                        vx, vy = x[0], y[0]
                        if isinstance(vx, Node) and isinstance(vy, Node) and vx.sort != vy.sort:
                            if vx.sort == "R": vy = self.conv(vy, "double" if x[1] == 8 else "float")
                            elif vy.sort == "R": vx = self.conv(vx, "double" if x[1] == 8 else "float")
                            elif vx.sort == "B": vx = E.icast("zext", vx, E.width(vy))
                            elif vy.sort == "B": vy = E.icast("zext", vy, E.width(vx))
                        if isinstance(vx, Ptr) and vx.obj is None and isinstance(vy, Node): vx = iconst(0, 64)
                        if isinstance(vx, Node) and E.isc(vx) and E.cv(vx) == 0 and isinstance(vy, (Ptr, PIte)): vx = NULL
                        if isinstance(vy, Node) and E.isc(vy) and E.cv(vy) == 0 and isinstance(vx, (Ptr, PIte)): vy = NULL
                        n.cells[q] = (vite(c, vx, vy), x[1])
                    else: 
                        # different granularity: read both at the finer one
                        s = min(x[1], y[1]); 
                        for q2 in range(q, q + max(x[1], y[1]), s):
                            t = "i%d" % (8 * s)
                            va = self.load1_o(oa, a, k, q2, t); vb = self.load1_o(ob, b, k, q2, t)
                            if q2 in n.cells and n.cells[q2][1] != s: del n.cells[q2]
                            n.cells[q2] = (vite(c, va, vb), s)
                else:
                    have = x or y
                    o2, s2 = (ob, b) if x is not None else (oa, a)
                    v = have[0]
                    t = "ptr" if isinstance(v, (Ptr, PIte, FnPtr)) else "i%d" % (8 * have[1]) if not (isinstance(v, Node) and v.sort == "R") else ("double" if have[1] == 8 else "float")
                    try: other = self.load1_o(o2, s2, k, q, t)
                    except Unsupported: other = UNDEF
                    if isinstance(v, Node) and isinstance(other, Node) and v.sort == "B" and other.sort != "B":
                        v = E.icast("zext", v, E.width(other))
                    if isinstance(v, Node) and isinstance(other, Node) and other.sort != v.sort:
                        other = self.conv(other, "double") if v.sort == "R" else other
                    n.cells[q] = (vite(c, v, other) if x is not None else vite(c, other, v), have[1])
            r.mem[k] = n
        for k in a.mem:
            if k not in b.mem:
                a.mem[k].shared = True
                if k.startswith("sh:"):
                    r.mem[k] = n = a.mem[k].clone(); n.cells = {q: (vite(c, x[0], I0), x[1]) for q, x in n.cells.items()}
        return r
    def load1_o(self, o, st, k, q, t):
        return self.load1(st, k, q, t)

    def phis(self, blk, prev, env, st):
        vals = []
        for I in blk:
            if I["op"] != "phi": break
            for v, b in I["in"]:
                if b == prev:
                    vals.append((I["id"], self.cval(v, st, env))); break
            else: raise Unsupported("phi without incoming")
        for i, v in vals: env[i] = v

    def die(self, why):
        c = TRUE
        for x in self.pc: c = E.band(c, x)
        self.deaths.append((c, why))

    def step(self, I, env, st):
        if not self.heap:
            try: return self.instr(I, env, st)
            except Dead as f:
                self.die(str(f)); return ("dead",)
        try: return self.instr(I, env, st)
        except Fault as f:
            self.die(str(f)); return ("dead",)
    def run(self, fname, b, prev, env, st, stop, phidone=False):
        """executes from block b until block `stop`; returns (state, env, prev) or None if every way dies"""
        fn = self.m.fns[fname]; blocks = fn["blocks"]; ip, reach, NX = self.m.postdom(fname)
        while True:
            if b == stop: return (st, env, prev)
            if b == NX: raise Unsupported("ran past exit")
            blk = blocks[b]
            if not phidone and prev is not DONE: self.phis(blk, prev, env, st)
            phidone = False
            term = blk[-1]
            for I in blk:
                if I["op"] == "phi": continue
                self.steps += 1
                if self.steps > self.maxsteps: raise Budget("interpreter step budget")
                d = I.get("dbg")
                if d:
                    E.CUR_DBG[0] = d
                    self.lines.add((d[0][0], d[0][2]))
                if I is term: break
                r = self.step(I, env, st)
                if isinstance(r, tuple) and r[0] == "dead": return None
                if isinstance(r, tuple) and r[0] == "st": st = r[1]
            op = term["op"]
            if op == "ret":
                env["ret"] = self.cval(term["ops"][0], st, env) if term["ops"] else None
                prev = b; b = NX; continue
            if op == "unreachable":
                self.die("unreachable"); return None
            if op == "resume":
                self.die("resume"); return None
            if op == "invoke":
                r = self.step(term, env, st)
                if isinstance(r, tuple) and r[0] == "dead": return None
                if isinstance(r, tuple) and r[0] == "st": st = r[1]
                prev = b; b = term["succ"][0]; continue
            if op == "br":
                if "cond" not in term: prev = b; b = term["succ"][0]; continue
                c = self.cval(term["cond"], st, env)
                if c is UNDEF: self.die("branch on an indeterminate value"); return None
                alts = [(c, term["succ"][0]), (None, term["succ"][1])]
            elif op == "switch":
                c = self.cval(term["cond"], st, env); alts = []
                bydest = {}
                for cvs, dest in term["cases"]:
                    e = E.eq(c, iconst(int(cvs), E.width(c))) if c.sort != "B" else (c if int(cvs) else E.bnot(c))
                    bydest[dest] = E.bor(bydest.get(dest, FALSE), e)
                alts = [(x, d) for d, x in bydest.items()] + [(None, term["def"])]
            else: raise Unsupported("terminator " + op)
            alts = self.resolve(alts)
            if len(alts) == 1: prev = b; b = alts[0][1]; continue
            p = ip.get(b)
            if p is None:
                # no way to return from here: explore each arm for its deaths
                p = -5
            r = self.fork(fname, b, alts, env, st, p)
            if r is None: return None
            st, env, _ = r
            prev = DONE; b = p; phidone = True
            if b == NX: phidone = True
    def resolve(self, alts):
        out = []
        for c, d in alts:
            if c is FALSE: continue
            if c is not None:
                k = self.known(c)
                if k is False: continue
                if k is True: c = TRUE
            if c is TRUE or c is None: out.append((None, d)); break
            out.append((c, d))
        if len(out) > 1 and all(d == out[0][1] for _, d in out): out = [(None, out[0][1])]
        return out
    def known(self, c):
        """is condition c already decided by the enclosing branch conditions (exact match only)"""
        if c is TRUE: return True
        if c is FALSE: return False
        for x in self.pc:
            if x is c: return True
            if x is E.bnot(c): return False
        if self.hooks.get("prune"): return self.decided(c)
        return None
    def preconds(self):
        """the evaluation contexts that the preconditions assumed so far leave open (None: too many)"""
        from . import norm as N
        k = len(self.assumes)
        if getattr(self, "_pk", None) != k:
            self._pk = k; self._pm = {}
            out = []; lim = int(self.hooks["prune"]) if self.hooks.get("prune") not in (None, True) else 8
            def rec(ctx, depth):
                if len(out) > lim: return
                try:
                    for a in self.assumes:
                        if not ctx.cond(a): return
                    out.append(ctx)
                except (N.Infeasible, N.Undefined): return
                except N.Split as sp:
                    if depth > 60: out.extend([None] * (lim + 1)); return
                    for f in sp.parts or (frozenset((1,)), frozenset((-1,)), frozenset((0,))):
                        try: rec(ctx.with_fact(sp.p, f), depth + 1)
                        except (N.Infeasible, N.Undefined): pass
                        except N.Split: out.extend([None] * (lim + 1))
                except (N.Unknown, N.TooBig, NotImplementedError): out.extend([None] * (lim + 1))
            rec(N.Ctx(), 0)
            self._pctx = out if 0 < len(out) <= lim else None
        return self._pctx
    def decided(self, c):
        """the value of c when the normal forms under the obligation's preconditions settle it"""
        from . import norm as N
        if self.preconds() is None: return None
        if c.id in self._pm: return self._pm[c.id][1]
        r = None
        try:
            # (a few further case splits are tried when the preconditions leave a sign open that turns out not to matter)
            deep = 5 if self.hooks["prune"] is not True else 0; vs = set(); bud = [400]
            def go(ctx, d):
                bud[0] -= 1
                try: vs.add(ctx.cond(c)); return len(vs) < 2
                except N.Split as sp:
                    if d >= deep or bud[0] < 0: raise
                    p, parts = sp.p, sp.parts
                except (N.Infeasible, N.Undefined):
                    if d: return True
                    raise
                for f in parts or (frozenset((1,)), frozenset((-1,)), frozenset((0,))):
                    try: c2 = ctx.with_fact(p, f)
                    except (N.Infeasible, N.Undefined): continue
                    if not go(c2, d + 1): return False
                return True
            if all(go(ctx, 0) for ctx in self._pctx) and len(vs) == 1: r = vs.pop()
        except (N.Split, N.Infeasible, N.Undefined, N.Unknown, N.TooBig, NotImplementedError, RecursionError, N.Rebase): pass
        self._pm[c.id] = (c, r)
        return r
    def settled(self, n):
        """n, or the constant that the preconditions force it to"""
        from . import norm as N
        if not self.hooks.get("prune") or E.isc(n) or self.preconds() is None: return n
        if n.id in self._pm: return self._pm[n.id][1]
        r = n
        try:
            vs = set()
            for ctx in self._pctx:
                v = ctx.ev(n)
                vs.add(v.n.get((), 0) if not v.d and set(v.n) <= {()} else None)
            if len(vs) == 1 and None not in vs: r = const(Fraction(vs.pop())) if n.sort == "R" else iconst(int(vs.pop()), E.width(n))
        except (N.Split, N.Infeasible, N.Undefined, N.Unknown, N.TooBig, NotImplementedError, RecursionError, N.Rebase): pass
        self._pm[n.id] = (n, r)
        return r
    def fork(self, fname, b, alts, env, st, p):
        c, d = alts[0]
        rest = alts[1:]
        self.pc.append(c)
        A = self.runto(fname, d, b, dict(env), st.fork(), p)
        self.pc.pop()
        if c is None: return A   # (prev is DONE)
        self.pc.append(E.bnot(c))
        if len(rest) == 1: B = self.runto(fname, rest[0][1], b, dict(env), st.fork(), p)
        else: B = self.fork(fname, b, rest, dict(env), st.fork(), p)
        self.pc.pop()
        if A is None: return B
        if B is None: return A
        sa, ea, pa = A; sb, eb, pb = B
        s = self.merge_states(c, sa, sb)
        e = {}
        for k, x in ea.items():
            y = eb.get(k, UNDEF)
            if x is y: e[k] = x
            elif k in eb:
                try: e[k] = vite(c, x, y)
                except Unsupported: e[k] = UNDEF
            else: e[k] = x
        for k, y in eb.items():
            if k not in e: e[k] = y
        return s, e, DONE
    def runto(self, fname, d, frm, env, st, p):
        r = self.run(fname, d, frm, env, st, p)
        if r is None: return None
        s, e, pv = r
        NX = self.m.postdom(fname)[2]
        if p != NX and p >= 0 and pv is not DONE: self.phis(self.m.fns[fname]["blocks"][p], pv, e, s)
        return s, e, DONE

    # ------------------------------------------------------------ instructions
    def lanes(self, f, *vs):
        n = next((len(v) for v in vs if isinstance(v, list)), None)
        if n is None: return f(*vs)
        return [f(*[(v[i] if isinstance(v, list) else v) for v in vs]) for i in range(n)]
    def instr(self, I, env, st):
        op = I["op"]; t = I["t"]
        if op in ("call", "invoke"): return self.docall(I, env, st)
        V = lambda i: self.cval(I["ops"][i], st, env)
        if op == "load": v = self.load(st, V(0), t)
        elif op == "store":
            h = self.hooks.get("store")
            if h: h(self, I, V(1), V(0), st)
            self.store(st, V(1), V(0), I["st"]); return
        elif op == "alloca":
            n = V(0)
            if not E.isc(n): raise Unsupported("variable alloca")
            k = self.new(st, "alloca", I["size"] * E.uns(n), "a"); v = Ptr(k, I0)
        elif op == "getelementptr":
            if not I["ok"]: raise Unsupported("gep")
            p = self.cval(I["base"], st, env); off = iconst(I["off"], 64)
            for x, sc, w in I["vars"]:
                xv = self.cval(x, st, env)
                if xv is UNDEF: raise Dead("indeterminate index")
                if xv.sort == "B": xv = E.icast("sext", xv, 64)
                elif E.width(xv) < 64: xv = E.icast("sext", xv, 64)
                off = E.ibin("add", off, E.ibin("mul", iconst(sc, 64), xv, 64), 64)
            v = self.padd(p, off)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            f = {"fadd": E.add, "fsub": E.sub, "fmul": E.mul, "fdiv": E.div, "frem": lambda a, b: E.fn("fmod", a, b)}[op]
            v = self.lanes(lambda a, b: UNDEF if a is UNDEF or b is UNDEF else f(a, b), V(0), V(1))
        elif op == "fneg": v = self.lanes(lambda a: UNDEF if a is UNDEF else E.neg(a), V(0))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            v = self.lanes(lambda a, b: self.ib(op, a, b), V(0), V(1))
        elif op == "fcmp": v = self.lanes(lambda a, b: self.fcmp(I["pred"], a, b), V(0), V(1))
        elif op == "icmp": v = self.lanes(lambda a, b: self.icmp(I["pred"], a, b), V(0), V(1))
        elif op == "select":
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, list): v = [vite(x, y, z) for x, y, z in zip(c, a, b)]
            else:
                if c is UNDEF: raise Dead("choice by an indeterminate value")
                k = self.decided(c) if self.hooks.get("prune") and c.op != "c" else None
                v = a if k is True else b if k is False else vite(c, a, b)
        elif op in ("zext", "sext", "trunc"):
            w = int(t.rstrip(">").split("x")[-1].strip("<i")) if t[0] == "<" else int(t[1:])
            v = self.lanes(lambda a: self.ic(op, a, w), V(0))
        elif op in ("sitofp", "uitofp"):
            def f(a):
                if a is UNDEF: return UNDEF
                if a.sort == "B": return ite(a, const(-1 if op == "sitofp" else 1), E.ZERO)
                return E.itor(a, op == "sitofp")
            v = self.lanes(f, V(0))
        elif op in ("fptosi", "fptoui"):
            w = int(t[1:])
            def f(a):
                if a is UNDEF: return UNDEF
                if E.isc(a): return iconst(math.trunc(E.cv(a)), w)
                if a.op in ("itor", "utor") and E.width(a.args[0]) == w: return a.args[0]
                return self.settled(E.mk("fn", ("f2i", a), "I%d" % w))
            v = self.lanes(f, V(0))
        elif op in ("fpext", "fptrunc"): v = V(0)
        elif op == "bitcast":
            a = V(0)
            if t[0] == "<" or isinstance(a, list): v = self.vbitcast(a, I["st"], t)
            else: v = self.conv(a, t)
        elif op in ("ptrtoint", "inttoptr", "addrspacecast"): v = V(0)
        elif op == "freeze": v = V(0)
        elif op == "extractvalue":
            v = V(0)
            for i in I["idx"]: v = UNDEF if v is UNDEF else v[i]
        elif op == "insertvalue":
            v = self.ins(V(0), I["idx"], V(1), t)
        elif op == "extractelement":
            a = V(0); i = V(1)
            if not E.isc(i): raise Unsupported("dynamic lane")
            v = a[E.uns(i)]
        elif op == "insertelement":
            a = V(0); i = V(2)
            a = list(a); a[E.uns(i)] = V(1); v = a
        elif op == "shufflevector":
            a, b = V(0), V(1)
            if b is UNDEF: b = [UNDEF] * len(a)
            ab = list(a) + list(b); v = [ab[m] if m >= 0 else UNDEF for m in I["mask"]]
        elif op == "landingpad": v = UNDEF
        elif op == "fence": return
        elif op == "atomicrmw":
            p = V(0); v = self.load(st, p, t); x = V(1); k = I["rmw"]
            if k == "xchg": r = x
            elif k in ("add", "sub", "and", "or", "xor") and isinstance(v, Node) and isinstance(x, Node): r = E.ibin(k, v, x, E.width(v))
            else: r = UNDEF
            self.store(st, p, r, t)
        else: raise Unsupported("instruction " + op)
        env[I["id"]] = v
    def vbitcast(self, a, st_, t):
        if st_[0] == "<" and t[0] == "<":
            se, te = elems(st_), elems(t)
            if tsize(se[0][1]) == tsize(te[0][1]): return [self.conv(x, te[0][1]) for x in a]
        if st_[0] == "<" and t[0] == "i":
            return E.mk("cat", tuple(self.conv(x, "i%d" % (8 * tsize(e))) for x, (_, e) in zip(a, elems(st_))), "I%s" % t[1:])
        if st_[0] != "<" and t[0] == "<":
            a = self.conv(a, "i%d" % (8 * tsize(t)))
            return [self.extract(a, o, e) for o, e in elems(t)]
        raise Unsupported("vector bitcast %s -> %s" % (st_, t))
    def ins(self, agg, idx, v, t):
        if agg is UNDEF: agg = self.cval({"k": "undef", "t": t}, None)
        a = list(agg)
        if len(idx) == 1: a[idx[0]] = v
        else: a[idx[0]] = self.ins(a[idx[0]], idx[1:], v, elems(t)[idx[0]][1])
        return a
    def ic(self, op, a, w):
        if a is UNDEF: return UNDEF
        if not isinstance(a, Node): return a
        if w == 1: return E.itrunc_bool(a)
        if op == "trunc" and a.op == "cat" and E.width(a.args[0]) == w: return a.args[0]
        return E.icast(op, a, w)
    def ib(self, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return E.ibin("sub", a.off, b.off, 64)
            if op == "sub" and isinstance(a, PIte): return ite(a.c, self.ib(op, a.a, b), self.ib(op, a.b, b))
            if op == "sub" and isinstance(b, PIte): return ite(b.c, self.ib(op, a, b.a), self.ib(op, a, b.b))
            if op == "add" and isinstance(a, Ptr) and isinstance(b, Node): return self.padd(a, b)
            raise Unsupported("pointer arithmetic " + op)
        if self.hooks.get("range") and op in ("urem", "udiv", "and", "or", "xor", "lshr", "add") and a.sort != "B":
            r = self.ranges().divrem(op, *((b, a) if op in ("and", "or", "xor") and E.isc(a) else (a, b)))
            if r is not None: return r
            w = E.width(a)
            if op == "and":
                q = E.onebit(E.mk("iand", (a, b), a.sort))
                if q and not (E.isc(a) and E.isc(b)): return ite(E.bit(*q), iconst(1 << q[1], w), iconst(0, w))
            if op == "lshr" and E.isc(b) and E.uns(b) == w - 1: return ite(E.bit(a, w - 1), iconst(1, w), iconst(0, w))
        if a.sort == "B":
            if op == "and": return E.band(a, b)
            if op == "or": return E.bor(a, b)
            if op in ("xor", "add", "sub"): return E.bxor(a, b)
            if op == "mul": return E.band(a, b)
            if op in ("shl", "lshr", "udiv"): return a
            raise Unsupported("bool " + op)
        w = E.width(a)
        if op == "lshr" and a.op == "cat" and E.isc(b):
            k = E.uns(b); p = 0
            for i, x in enumerate(a.args):
                if p == k and i == len(a.args) - 1: return E.icast("zext", x, w)
                p += E.width(x)
        return E.ibin(op, a, b, w)
    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if pred == "ord": return TRUE
        if pred == "uno": return FALSE
        if pred == "true": return TRUE
        if pred == "false": return FALSE
        p = pred[1:]
        return {"lt": lambda: E.lt(a, b), "le": lambda: E.le(a, b), "gt": lambda: E.lt(b, a), "ge": lambda: E.le(b, a), "eq": lambda: E.eq(a, b), "ne": lambda: E.bnot(E.eq(a, b))}[p]()
    def ranges(self):
        if getattr(self, "_rg", None) is None or self._rgn != len(self.assumes): self._rg = Range(self.assumes); self._rgn = len(self.assumes)
        return self._rg
    def icmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, PIte): return ite(a.c, self.icmp(pred, a.a, b), self.icmp(pred, a.b, b))
        if isinstance(b, PIte): return ite(b.c, self.icmp(pred, a, b.a), self.icmp(pred, a, b.b))
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Node) or isinstance(b, Node):
                n = a if isinstance(a, Node) else b
                if E.isc(n) and E.cv(n) == 0: a, b = (NULL if a is n else a), (NULL if b is n else b)
                else: raise Unsupported("ptr/int compare")
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                s = samep(a, b)
                return const(s if pred == "eq" else not s, "B")
            if a.obj == b.obj: a, b = a.off, b.off
            elif pred == "eq": return FALSE
            elif pred == "ne": return TRUE
            elif NULL.obj in (a.obj, b.obj): raise Unsupported("ordering of a pointer and null")
            else:
                # distinct objects are disjoint; their addresses are ordered in one fixed way
                r = str(a.obj) < str(b.obj)
                return const(r if pred[1:2] == "l" else not r, "B")
        if a.sort == "B":
            if pred == "eq": return E.bnot(E.bxor(a, b))
            if pred == "ne": return E.bxor(a, b)
            f = {"ugt": lambda: E.band(a, E.bnot(b)), "ult": lambda: E.band(E.bnot(a), b), "uge": lambda: E.bor(a, E.bnot(b)), "ule": lambda: E.bor(E.bnot(a), b),
                 "slt": lambda: E.band(a, E.bnot(b)), "sgt": lambda: E.band(E.bnot(a), b)}.get(pred)
            if f: return f()
            raise Unsupported("bool compare")
        if self.hooks.get("range") and pred[0] in "uen" and a.sort != "B" and not (E.isc(a) and E.isc(b)):
            r = self.ranges().cmp(pred, a, b)
            if r is not None: return const(r, "B")
        f = {"eq": lambda: E.eq(a, b), "ne": lambda: E.bnot(E.eq(a, b)), "slt": lambda: E.lt(a, b), "sle": lambda: E.le(a, b), "sgt": lambda: E.lt(b, a), "sge": lambda: E.le(b, a),
             "ult": lambda: E.ultu(a, b, True), "ule": lambda: E.ultu(a, b, False), "ugt": lambda: E.ultu(b, a, True), "uge": lambda: E.ultu(b, a, False)}[pred]
        if pred in ("slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge", "eq", "ne"):
            for p, q in ((a, b), (b, a)):
                if p.op == "ite" and E.isc(q) and E.constleaves(p):
                    g = (lambda u: self.icmp(pred, u, q)) if p is a else (lambda u: self.icmp(pred, q, u))
                    k = (pred, p.id, q.id, p is a)
                    r = self.icache.get(k)
                    if r is None: r = self.icache[k] = ite(p.args[0], g(p.args[1]), g(p.args[2]))
                    return r
        return f()

    def docall(self, I, env, st):
        args = [self.cval(x, st, env) for x in I["ops"]]
        name = I["fname"]
        if not name:
            cal = self.cval(I["callee"], st, env)
            if isinstance(cal, FnPtr): name = cal.name
            elif I["callee"].get("k") == "other": raise Unsupported("inline asm")
            else:
                h = self.hooks.get("indirect")
                if h:
                    r = h(self, I, cal, args, env, st)
                    if r is not NotImplemented: env[I["id"]] = r; return
                raise Unsupported("indirect call")
        t = I["t"]
        h = self.hooks.get("call")
        if h:
            r = h(self, name, args, I, env, st)
            if r is not NotImplemented:
                env[I["id"]] = r; return
        if any(x in name for x in self.hooks.get("skip", ())): env[I["id"]] = UNDEF; return
        v = self.builtin(name, args, t, I, st)
        if v is NotImplemented:
            fn = self.m.fns.get(name)
            if fn is None or fn["decl"]:
                if I["noret"] or (fn and fn["noreturn"]):
                    self.die(self.kind_of_death(name, args))
                    return ("dead",)
                raise Unsupported("call to undefined " + name)
            nd = len(self.deaths)
            r = self.call(name, args, st)
            if r is None:
                return ("dead",)
            s2, e2, _ = r
            env[I["id"]] = e2.get("ret")
            # memory effects: adopt the callee's final state in place
            if s2 is not st: st.mem = s2.mem
            return
        if isinstance(v, tuple) and v and v[0] == "dead": return v
        env[I["id"]] = v
    def kind_of_death(self, name, args):
        if name == "__cxa_throw":
            ti = args[1]
            nm = ti.obj if isinstance(ti, Ptr) else "?"
            return "throw " + str(nm)
        return name
    def builtin(self, name, a, t, I, st):
        n = name
        if n.startswith("llvm."):
            p = n.split("."); b = p[1]
            if b in ("lifetime", "experimental", "dbg", "assume", "prefetch", "invariant", "donothing", "stackrestore", "var", "annotation"): return UNDEF
            if b == "stacksave": return UNDEF
            if b in ("memcpy", "memmove"): self.memcpy(st, a[0], a[1], a[2]); return UNDEF
            if b == "memset": self.memset(st, a[0], a[1], a[2]); return UNDEF
            L = self.lanes
            def U(f): return lambda *x: UNDEF if any(y is UNDEF for y in x) else f(*x)
            if b in ("fma", "fmuladd"): return L(U(lambda x, y, z: E.add(E.mul(x, y), z)), *a[:3])
            if b == "fabs": return L(U(self.fabs), a[0])
            if b in ("minnum", "minimum"): return L(U(lambda x, y: ite(E.lt(y, x), y, x)), *a[:2])
            if b in ("maxnum", "maximum"): return L(U(lambda x, y: ite(E.lt(x, y), y, x)), *a[:2])
            if b == "copysign": return L(U(self.copysign), *a[:2])
            if b in MATH1: return L(U(lambda x: self.m1(b, x)), a[0])
            if b == "exp2": return E.fn("pow", const(2), a[0])
            if b == "pow": return E.fn("pow", a[0], a[1])
            if b == "ldexp": 
                if E.isc(a[1]): return E.mul(E.powi(const(2), E.cv(a[1])), a[0])
                return E.mul(a[0], E.fn("pow", const(2), E.itor(a[1])))
            if b == "powi":
                if E.isc(a[1]): return E.powi(a[0], E.cv(a[1]))
                return E.fn("pow", a[0], E.itor(a[1]))
            if b in ("smax", "smin"):
                return L(U(lambda x, y: ite(self.icmp("slt" if b == "smax" else "sgt", x, y), y, x)), *a[:2])
            if b in ("umax", "umin"):
                return L(U(lambda x, y: ite(self.icmp("ult" if b == "umax" else "ugt", x, y), y, x)), *a[:2])
            if b == "abs":
                return L(U(lambda x: ite(E.lt(x, iconst(0, E.width(x))), E.ibin("sub", iconst(0, E.width(x)), x, E.width(x)), x)), a[0])
            if b in ("fshl", "fshr"):
                w = E.width(a[0]); k = E.uns(a[2]) % w if E.isc(a[2]) else None
                if k is None: return E.mk("i" + b, tuple(a[:3]), a[0].sort)
                if b == "fshr": k = (w - k) % w
                if all(E.isc(x) for x in a[:2]):
                    return iconst(((E.uns(a[0]) << k) | (E.uns(a[1]) >> (w - k))) if k else E.uns(a[0]), w)
                if a[0] is a[1]: return E.mk("irotl", (a[0], iconst(k, w)), a[0].sort) if k else a[0]
                return E.ibin("or", E.ibin("shl", a[0], iconst(k, w), w), E.ibin("lshr", a[1], iconst(w - k, w), w), w) if k else a[0]
            if b in ("ctpop", "ctlz", "cttz", "bswap", "bitreverse"):
                if E.isc(a[0]):
                    w = E.width(a[0]); x = E.uns(a[0])
                    if b == "ctpop": return iconst(bin(x).count("1"), w)
                    if b == "ctlz": return iconst(w - x.bit_length(), w)
                    if b == "cttz": return iconst(w if x == 0 else (x & -x).bit_length() - 1, w)
                    if b == "bswap": return iconst(int.from_bytes(x.to_bytes(w // 8, "little"), "big"), w)
                return E.mk("fn", (b, a[0]), a[0].sort)
            if b in ("umul", "smul", "uadd", "sadd", "usub", "ssub") and p[2] == "with":
                opn = b[1:]; w = E.width(a[0])
                r = E.ibin(opn, a[0], a[1], w)
                ov = FALSE
                if E.isc(a[0]) and E.isc(a[1]):
                    f = {"mul": lambda x, y: x * y, "add": lambda x, y: x + y, "sub": lambda x, y: x - y}[opn]
                    ex = f(E.uns(a[0]), E.uns(a[1])) if b[0] == "u" else f(E.cv(a[0]), E.cv(a[1]))
                    ov = const(not ((0 <= ex < (1 << w)) if b[0] == "u" else (-(1 << (w - 1)) <= ex < (1 << (w - 1)))), "B")
                elif not E.isc(r): ov = E.mk("fn", ("ovf_" + b, a[0], a[1]), "B") if self.hooks.get("overflow") else FALSE
                return [r, ov]
            if b == "is" and p[2] == "fpclass": return FALSE
            if b == "is" and p[2] == "constant": return FALSE
            if b == "usub" and p[2] == "sat": w = E.width(a[0]); return ite(self.icmp("ult", a[0], a[1]), iconst(0, w), E.ibin("sub", a[0], a[1], w))
            if b == "expect": return a[0]
            if b == "objectsize": return iconst(-1, 64)
            if b == "threadlocal": return a[0]
            if b == "trap": self.die("trap"); return ("dead",)
            if b == "vector" and p[2] == "reduce":
                k = p[3]
                if k == "add":
                    r = a[0][0]
                    for x in a[0][1:]: r = self.ib("add", r, x)
                    return r
                if k in ("fadd",):
                    r = a[0]
                    for x in a[1]: r = E.add(r, x)
                    return r
                if k == "fmul":
                    r = a[0]
                    for x in a[1]: r = E.mul(r, x)
                    return r
                if k in ("or", "and", "xor", "mul"):
                    r = a[0][0]
                    for x in a[0][1:]: r = self.ib(k, r, x)
                    return r
            raise Unsupported("intrinsic " + n)
        if n.startswith("vgu_"):   # declared-only pure function: an uninterpreted symbol
            return E.mk("fn", (n,) + tuple(self.boxed(x) for x in a), "R" if isfp(t) else "B" if t == "i1" else "I%s" % t[1:])
        if n == "vg_diff": return E.diff(a[0], a[1])
        if n == "vg_assume":
            c = a[0]
            if c.sort != "B": c = E.bnot(E.eq(c, iconst(0, E.width(c))))
            g = c
            for x in self.pc: g = E.bor(E.bnot(x), g)
            self.assumes.append(g); return UNDEF
        if n == "vg_pi": return E.PI
        if n in ("vg_born", "vg_dies", "vg_live"): return self.track(n[3:], a[0], st)
        base = n
        if base.endswith("f") and base[:-1] in MATH1 or base in ("fabsf", "atan2f", "powf", "fmodf", "fminf", "fmaxf", "exp2f", "hypotf"): base = base[:-1]
        if base.endswith("l") and base[:-1] in MATH1: base = base[:-1]
        if base in MATH1 and len(a) == 1: return self.m1(base, a[0])
        if base == "fabs": return self.fabs(a[0])
        if base == "atan2": return E.fn("atan2", a[0], a[1])
        if base == "pow": return E.fn("pow", a[0], a[1])
        if base == "exp2": return E.fn("pow", const(2), a[0])
        if base == "fmod": return E.fn("fmod", a[0], a[1])
        if base == "hypot": return E.fn("sqrt", E.add(E.mul(a[0], a[0]), E.mul(a[1], a[1])))
        if base == "fmin": return ite(E.lt(a[1], a[0]), a[1], a[0])
        if base == "fmax": return ite(E.lt(a[0], a[1]), a[1], a[0])
        if base in ("ldexp", "scalbn") and E.isc(a[1]): return E.mul(E.powi(const(2), E.cv(a[1])), a[0])
        if base == "ldexp": return E.mul(a[0], E.fn("pow", const(2), E.itor(a[1])))
        if n in ("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamSt11align_val_t", "_ZnwmSt11align_val_t"):
            k = "malloc" if n == "malloc" else "new[]" if n.startswith("_Zna") else "new"
            return Ptr(self.new(st, "heap", E.uns(a[0]) if E.isc(a[0]) else None, k), I0)
        if n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"):
            if self.heap: self.release(st, a[0], "malloc" if n == "free" else "new[]" if n.startswith("_Zda") else "new")
            elif isinstance(a[0], Ptr) and a[0].obj in st.mem: st.w(a[0].obj).freed = TRUE
            return UNDEF
        if n in ("memcpy", "memmove"): self.memcpy(st, a[0], a[1], a[2]); return a[0]
        if n == "memset": self.memset(st, a[0], a[1], a[2]); return a[0]
        if n == "__cxa_guard_acquire": return iconst(1, 32)
        if n in ("__cxa_guard_release", "__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_free_exception", "__cxa_begin_catch", "__cxa_end_catch"): return iconst(0, 32)
        if n == "__cxa_allocate_exception": return Ptr(self.new(st, "heap", E.uns(a[0]), "exc"), I0)
        if n in ("bcmp", "memcmp") and E.isc(a[2]):
            r = TRUE
            for k in range(0, E.uns(a[2]), 1):
                pass
            raise Unsupported("memcmp")
        fn = self.m.fns.get(n)
        if (fn is None or fn["decl"]) and n.startswith(("_ZN4geom26DimensionMismatchException", "_ZN4geom17GeomException", "_ZN4geom21NonsquareMatrixException", "_ZNSt")) and ("C1E" in n or "C2E" in n):
            return UNDEF
        return NotImplemented
    def boxed(self, x):
        if isinstance(x, Node): return x
        raise Unsupported("pointer passed to uninterpreted function")
    def fabs(self, x):
        if E.isc(x): return const(abs(E.cv(x)))
        return ite(E.lt(x, E.ZERO), E.neg(x), x)
    def copysign(self, x, y):
        ax = self.fabs(x)
        return ite(E.lt(y, E.ZERO), E.neg(ax), ax)
    def m1(self, f, x):
        if f in ("rint", "nearbyint"): f = "rint"
        if f in ("floor", "ceil", "trunc"): return self.settled(E.fn(f, x))
        return E.fn(f, x)

def linear(n):
    """n as (const, ((node, coef),...)) over integer nodes"""
    w = E.width(n)
    if E.isc(n): return E.cv(n), ()
    if n.op == "iadd":
        a, b = linear(n.args[0]), linear(n.args[1])
        if a is None or b is None: return None
        d = {}
        for t in (a[1], b[1]):
            for x, k in t: d[x] = d.get(x, 0) + k
        return a[0] + b[0], tuple((x, k) for x, k in d.items() if k)
    if n.op == "imul" and E.isc(n.args[0]):
        a = linear(n.args[1])
        if a is None: return None
        k = E.cv(n.args[0])
        return a[0] * k, tuple((x, c * k) for x, c in a[1])
    if n.op in ("sext", "zext") and n.args[0].sort != "B":
        return 0, ((n.args[0], 1),)
    return 0, ((n, 1),)
