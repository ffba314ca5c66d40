"""Obligations: pairs (implementation term, specification term) that must be the same function of the inputs.
Decision: value numbering modulo the field axioms (norm.Ctx), refining over sign cases; refutation: a point of the
failing case at which the two *terms* take different values (random interpretation of the value graph)."""
import os, time, sys, math, random, hashlib
from fractions import Fraction
from . import expr as E, norm as N, interp as I
from .expr import Node
import mpmath
mpmath.mp.dps = 45
mpf = mpmath.mpf
sys.setrecursionlimit(200000)

class NumUndef(Exception): pass
class Near(Exception): pass

def hashval(key, lo=-3, hi=3):
    h = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=7).digest(), "big")
    return lo + (hi - lo) * mpf(h) / mpf(1 << 56)
EPS = mpf(10) ** -22

class NumEval:
    """value of a term at one point of the input space (env: input name -> value)"""
    def __init__(s, env, tol=False):
        s.env = env; s.memo = {}; s.tol = tol
    def key(s, v):
        return mpmath.nstr(v, 25) if isinstance(v, mpf) else v
    def ev(s, n):
        m = s.memo.get(n.id)
        if m is not None:
            if m == "undef": raise NumUndef()
            return m
        try: r = s._ev(n)
        except NumUndef:
            s.memo[n.id] = "undef"; raise
        s.memo[n.id] = r
        return r
    def wrapi(s, v, n): return E.wrap(int(v), E.width(n))
    def _ev(s, n):
        op = n.op; a = n.args
        if op == "c":
            v = a[0]
            if n.sort == "R": return mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpf(v)
            return v
        if op == "v":
            nm = a[0]
            if nm == "pi": return +mpmath.pi
            if nm == "inf": return mpf("inf")
            if nm == "nan": raise NumUndef()
            if nm not in s.env:
                s.env[nm] = s.default(nm, n.sort)
            return s.env[nm]
        if op == "ite": return s.ev(a[1] if s.ev(a[0]) else a[2])
        if op == "not": return not s.ev(a[0])
        if op in ("lt", "le", "eq"):
            x, y = s.ev(a[0]), s.ev(a[1])
            if isinstance(x, mpf) or isinstance(y, mpf):
                d = x - y
                if not (mpmath.isinf(x) or mpmath.isinf(y)):
                    if d != 0 and abs(d) < EPS * (1 + abs(x) + abs(y)):
                        if s.tol: return op != "lt"
                        raise Near()
                elif x == y: return op != "lt"
            return x < y if op == "lt" else x <= y if op == "le" else x == y
        if op in ("ult", "ule"):
            w = (1 << E.width(a[0])) - 1
            x, y = int(s.ev(a[0])) & w, int(s.ev(a[1])) & w
            return x < y if op == "ult" else x <= y
        if n.sort == "R":
            if op == "add": return s.ev(a[0]) + s.ev(a[1])
            if op == "mul": return s.ev(a[0]) * s.ev(a[1])
            if op == "div":
                d = s.ev(a[1])
                if d == 0: raise NumUndef()
                return s.ev(a[0]) / d
            if op == "itor": return mpf(s.ev(a[0]))
            if op == "utor": return mpf(int(s.ev(a[0])) & ((1 << E.width(a[0])) - 1))
            if op == "bitsf": return hashval(("bitsf", s.ev(a[0])))
            if op == "fn": return s.fn(a[0], [s.ev(x) for x in a[1:]], n)
        if n.sort[0] == "I":
            if op == "fn":
                return s.wrapi(int(hashval((a[0],) + tuple(s.key(s.ev(x)) for x in a[1:]), 0, 2**40)), n) if a[0] != "f2i" else s.wrapi(int(mpmath.floor(s.ev(a[1])) if s.ev(a[1]) >= 0 else mpmath.ceil(s.ev(a[1]))), n)
            xs = [s.ev(x) for x in a]
            cs = [E.iconst(x, E.width(y)) if y.sort != "B" and y.sort != "R" else (E.const(bool(x), "B") if y.sort == "B" else x) for x, y in zip(xs, a)]
            w = E.width(n)
            if op in ("zext", "sext", "trunc"):
                return E.cv(E.icast(op, cs[0], w))
            if op == "ixor":
                r = cs[0]
                for c in cs[1:]: r = E.ibin("xor", r, c, w)
                return E.cv(r)
            if op == "irotl":
                k = int(xs[1]) % w; u = E.uns(cs[0]); return E.wrap((u << k) | (u >> (w - k)), w)
            if op == "ifshl":
                k = int(xs[2]) % w; return E.wrap((E.uns(cs[0]) << k) | (E.uns(cs[1]) >> (w - k)), w)
            if op == "cat":
                r = 0; p = 0
                for c in cs:
                    r |= E.uns(c) << p; p += E.width(c)
                return E.wrap(r, w)
            if op == "fbits": return s.wrapi(int(hashval(("fbits", s.key(xs[0])), 0, 2**40)), n)
            if op[0] == "i" and len(cs) == 2:
                if op in ("isdiv", "iudiv", "isrem", "iurem") and E.cv(cs[1]) == 0: raise NumUndef()
                r = E.ibin(op[1:], cs[0], cs[1], w)
                if E.isc(r): return E.cv(r)
        if n.sort == "B" and op == "fn":
            return hashval((a[0],) + tuple(s.key(s.ev(x)) for x in a[1:])) > 0
        raise N.Unknown("numeric " + op)
    def default(s, nm, sort):
        if sort == "R": return hashval(nm)
        if sort == "B": return hashval(nm) > 0
        return int(hashval(nm, -40, 40))
    def fn(s, f, x, n=None):
        if f == "sqrt":
            if x[0] < 0:
                if x[0] > -EPS: return mpf(0)
                raise NumUndef()
            return mpmath.sqrt(x[0])
        if f in ("asin", "acos"):
            if abs(x[0]) > 1:
                if abs(x[0]) < 1 + EPS: x = [mpmath.sign(x[0])]
                else: raise NumUndef()
        if f == "log":
            if x[0] <= 0: raise NumUndef()
        if f in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sinh", "cosh", "tanh", "asinh", "acosh", "floor", "ceil", "expm1", "log1p", "cbrt"):
            r = getattr(mpmath, f)(x[0])
            if isinstance(r, mpmath.mpc): raise NumUndef()
            return r
        if f == "trunc": return mpmath.floor(x[0]) if x[0] >= 0 else mpmath.ceil(x[0])
        if f in ("rint",): return mpmath.nint(x[0])
        if f == "round": return mpmath.floor(x[0] + mpf(1) / 2) if x[0] >= 0 else mpmath.ceil(x[0] - mpf(1) / 2)
        if f == "atan2":
            if x[0] == 0 and x[1] == 0: return mpf(0)
            return mpmath.atan2(x[0], x[1])
        if f == "tgamma": return mpmath.gamma(x[0])
        if f == "lgamma": return mpmath.loggamma(x[0]).real
        if f == "log2": 
            if x[0] <= 0: raise NumUndef()
            return mpmath.log(x[0]) / mpmath.log(2)
        if f == "log10":
            if x[0] <= 0: raise NumUndef()
            return mpmath.log(x[0]) / mpmath.log(10)
        if f == "pow":
            if x[0] == 0 and x[1] < 0: raise NumUndef()
            if x[0] < 0 and x[1] != int(x[1]): raise NumUndef()
            return x[0] ** x[1]
        if f == "fmod":
            if x[1] == 0: raise NumUndef()
            q = x[0] / x[1]; q = mpmath.floor(q) if q >= 0 else mpmath.ceil(q)
            return x[0] - q * x[1]
        if f.startswith("vgu_") or f.startswith("load:") or f.startswith("ext:"):
            if f.startswith("vgu_pos") : return abs(hashval((f,) + tuple(s.key(v) for v in x))) + mpf(1) / 8
            return hashval((f,) + tuple(s.key(v) for v in x))
        raise N.Unknown("numeric fn " + f)

# ------------------------------------------------------------------ running functions
def input_vars(nodes):
    out = {}
    for n in E.deps(nodes):
        if n.op == "v" and n.args[0] not in ("pi", "inf", "nan"): out[n.args[0]] = n.sort
    return out

class RunResult: pass

ELT = {"double": "double", "float": "float", "int": "i32", "unsigned int": "i32", "long": "i64", "unsigned long": "i64", "bool": "i8", "unsigned char": "i8", "char": "i8", "unsigned short": "i16", "short": "i16"}
def run_fn(mod, fname, hooks=None, maxsteps=3000000, sig=None):
    ip = I.Interp(mod, maxsteps=maxsteps, hooks=hooks)
    for a, t in zip([a for a in mod.fns[fname]["args"] if not a["sret"]], sig or []):
        t = t.replace("const", "").replace("*", "").replace("&", "").strip()
        if a["t"] == "ptr" and t in ELT: ip.elts[a["n"]] = ELT[t]
    st = I.State(); args = []; objs = []
    fn = mod.fns[fname]
    for a in fn["args"]:
        nm = a["n"]; t = a["t"]
        if t == "ptr":
            if a["sret"]:
                k = "@@sret"; st.mem[k] = I.Obj("alloca", None, "sret")
            else:
                k = "@@" + nm; st.mem[k] = I.Obj("input" if nm[0] != "o" else "alloca", None, nm)
            objs.append((nm, k)); args.append(I.Ptr(k, I.I0))
        elif I.isfp(t): args.append(E.var(nm, "R"))
        elif t == "i1": args.append(E.var(nm, "B"))
        else: args.append(E.var(nm, "I%s" % t[1:]))
    mod_ctor(ip, st)
    r = ip.call(fname, args, st)
    R = RunResult(); R.ip = ip; R.deaths = ip.deaths; R.assumes = ip.assumes; R.out = {}
    if r is not None:
        s, env, _ = r
        R.dead = False
        if ip.heap: ip.atexit(s)
        for nm, k in objs:
            o = s.mem.get(k)
            es = I.tsize(ip.elts[nm]) if nm in ip.elts else None
            for off in sorted(o.cells):
                v, z = o.cells[off]
                if es and z > es and z % es == 0 and v is not I.UNDEF:
                    for q in range(off, off + z, es): R.out[(nm, q)] = (ip.load1(s, k, q, ip.elts[nm]), es)
                else: R.out[(nm, off)] = o.cells[off]
        rv = env.get("ret")
        if rv is not None: 
            if isinstance(rv, list):
                for i, x in enumerate(rv): R.out[("ret", i)] = (x, 8)
            else: R.out[("ret", 0)] = (rv, 8)
    else: R.dead = True
    return R

def mod_ctor(ip, st):
    """dynamic initialisers of the witness unit's constants (namespace-scope and static members)"""
    m = ip.m
    if not hasattr(m, "ctors"):
        m.ctors = [f for f in m.fns if f.startswith("__cxx_global_var_init") and not m.fns[f]["decl"]]
        if not m.ctors: m.ctors = [f for f in m.fns if f.startswith("_GLOBAL__sub_I") and not m.fns[f]["decl"]]
    if ip.hooks.get("noctors"): return
    for f in m.ctors:
        s2 = st.fork()
        try:
            r = ip.call(f, [], s2)
            if r is not None: st.mem = r[0].mem
        except (I.Unsupported, I.Budget): pass

def deadnode(deaths):
    d = {}
    acc = E.FALSE
    for c, why in deaths:
        c2 = E.band(c, E.bnot(acc)); acc = E.bor(acc, c)
        d[why] = E.bor(d.get(why, E.FALSE), c2)
    return d, acc

# ------------------------------------------------------------------ the decision
OK, VAC, BAD, UNK = "ok", "vacuous", "bad", "undecided"

class Result:
    def __init__(s): s.status = OK; s.leaves = 0; s.why = ""; s.witness = None; s.lhs = s.rhs = None; s.time = 0

class Decider:
    def __init__(s, assumes, maxleaves=1500, maxtime=25.0, seed=1):
        s.assumes = assumes; s.maxleaves = maxleaves; s.maxtime = maxtime; s.seed = seed
    def decide(s, impl, spec, guard=None):
        R = Result(); t0 = time.time(); s.t0 = t0; N.DEADLINE[0] = t0 + s.maxtime * 1.5
        s.R = R; s.impl = impl; s.spec = spec; s.guard = guard
        if impl is spec: R.status = OK; R.leaves = 1; return R
        if impl is I.UNDEF: 
            if spec is I.UNDEF: return R
            impl = s.impl = E.var("nan", "R") if isinstance(spec, Node) and spec.sort == "R" else None
        if impl is None or not isinstance(impl, Node) or not isinstance(spec, Node):
            if isinstance(impl, (I.Ptr, I.PIte)) and isinstance(spec, (I.Ptr, I.PIte)) and I.samep(impl, spec): return R
            R.status = UNK; R.why = "not a scalar: %r / %r" % (impl, spec)
            return R
        if impl.sort != spec.sort:
            R.status = UNK; R.why = "sorts %s %s" % (impl.sort, spec.sort); return R
        try:
            for attempt in range(4):
                try: s.rec(N.Ctx()); break
                except N.Rebase as rb:
                    R.leaves = 0
                    bu = rb.u; N._atomkey[("trigbases",)] = []
                    sa = N.new_atom("sin", "sin", (bu,)); ca = N.new_atom("cos", "cos", (bu, sa.id))
                    N._atomkey[("trigbases",)].append((bu, sa, ca))
            else: R.status = UNK; R.why = "angle units"
        except N.TooBig: R.status = UNK; R.why = "normal form too large"
        except Stop: pass
        except (N.Unknown, NotImplementedError) as e: R.status = UNK; R.why = "no normal form: %s" % e
        except RecursionError:
            if os.environ.get("VG_TRACE"): import traceback; traceback.print_exc(limit=40)
            R.status = UNK; R.why = "recursion"
        N.DEADLINE[0] = None
        if R.status == UNK: s.random_refute()
        R.time = time.time() - t0
        return R
    def rec(s, ctx):
        R = s.R
        if time.time() - s.t0 > s.maxtime or R.leaves > s.maxleaves:
            R.status = UNK; R.why = "case budget (%d cases)" % R.leaves; raise Stop()
        try:
            for a in s.assumes:
                try:
                    if not ctx.cond(a): R.leaves += 1; return
                except N.Undefined: R.leaves += 1; return
            if s.guard is not None:
                if not ctx.cond(s.guard): R.leaves += 1; return
            if s.spec.sort == "B":
                try: y = ctx.cond(s.spec)
                except N.Undefined: R.leaves += 1; return
                try: x = ctx.cond(s.impl)
                except N.Undefined: return s.bad(ctx, "undefined", str(y))
                R.leaves += 1
                if x != y: return s.bad(ctx, str(x), str(y))
                return
            try: y = ctx.ev(s.spec)
            except N.Undefined: R.leaves += 1; return
            try: x = ctx.ev(s.impl)
            except N.Undefined: return s.bad(ctx, "undefined", N.rshow(y))
            R.leaves += 1
            if ctx.req(x, y): return
            q = ctx.pinned(x, y)
            if q is None: return s.bad(ctx, N.rshow(x), N.rshow(y))
            p, parts = q, None
        except N.Infeasible: R.leaves += 1; return
        except N.Split as sp:
            p, parts = sp.p, sp.parts
        if ctx.depth > 400:
          if os.environ.get("VG_TRACE"): print("DEPTH split", N.pshow(p, 12), parts, "facts", facts_show(ctx))
          R.status = UNK; R.why = "case depth"; raise Stop()
        parts = parts or (frozenset((1,)), frozenset((-1,)), frozenset((0,)))
        for f in parts:
            try: c = ctx.with_fact(p, f)
            except N.Infeasible: continue
            except N.Undefined: continue
            except N.Split as sp2:
                # a substitution needed a sign: refine on that first
                for g in sp2.parts or (frozenset((1,)), frozenset((-1,)), frozenset((0,))):
                    try: c2 = ctx.with_fact(sp2.p, g)
                    except (N.Infeasible, N.Undefined, N.Split): continue
                    s.rec(c2)
                return
            s.rec(c)
    def bad(s, ctx, xs, ys):
        """the normal forms differ in this case: find a point of the case where the terms differ"""
        R = s.R
        if ctx.contradictory(): return
        rng = random.Random(s.seed * 7919 + R.leaves)
        vs = input_vars([x for x in (s.impl, s.spec, s.guard) if x is not None] + list(s.assumes))
        for k in range(300):
            env = point(vs, rng, k, ctx)
            if env is None: continue
            w = s.at(env, bool(ctx.subs or ctx.rels))
            if w:
                R.status = BAD; R.witness = w; R.lhs = xs[:300]; R.rhs = ys[:300]; R.why = "case " + facts_show(ctx)
                raise Stop()
        R.status = UNK; R.why = "normal forms differ, no separating point: %s  |  %s  in case %s" % (xs[:200], ys[:200], facts_show(ctx)[:900])
        raise Stop()
    def at(s, env, tol=False):
        env = dict(env)
        ne = NumEval(env, tol)
        try:
            for a in s.assumes:
                if not ne.ev(a): return None
            if s.guard is not None and not ne.ev(s.guard): return None
            y = ne.ev(s.spec)
        except (NumUndef, Near, ZeroDivisionError, ValueError, OverflowError): return None
        except N.Unknown: return None
        try: x = ne.ev(s.impl)
        except NumUndef: x = "undefined"
        except (Near, ZeroDivisionError, ValueError, OverflowError, N.Unknown): return None
        if x == "undefined": return (env, "undefined", str(y))
        if isinstance(x, mpf) and isinstance(y, mpf):
            if mpmath.isnan(x) and mpmath.isnan(y): return None
            if x == y: return None
            if abs(x - y) <= mpf(10) ** -18 * (1 + abs(x) + abs(y)): return None
            return (env, mpmath.nstr(x, 12), mpmath.nstr(y, 12))
        if x != y: return (env, str(x), str(y))
        return None
    def random_refute(s):
        R = s.R
        if s.impl is None or not isinstance(s.impl, Node): return
        rng = random.Random(s.seed)
        vs = input_vars([x for x in (s.impl, s.spec, s.guard) if x is not None] + list(s.assumes))
        t = time.time(); tried = 0
        for k in range(400):
            if time.time() - t > 12: break
            env = point(vs, rng, k, None)
            w = s.at(env); tried += 1
            if w:
                R.status = BAD; R.witness = w; R.why = "random interpretation (%s)" % R.why; R.lhs, R.rhs = E.show(s.impl, 5)[:300], E.show(s.spec, 5)[:300]
                return
        R.why += "; random interpretation found no difference at %d points" % tried

class Stop(Exception): pass

def facts_show(ctx):
    t = {frozenset((1,)): ">0", frozenset((-1,)): "<0", frozenset((0,)): "=0", frozenset((0, 1)): ">=0", frozenset((0, -1)): "<=0", frozenset((1, -1)): "!=0"}
    out = ["%s%s" % (N.pshow(dict(k), 5), t.get(f, "?")) for k, f in ctx.facts.items()]
    out += ["%s=%s" % (N.ATOMS[a].name, N.rshow(r)) for a, r in ctx.subs.items()]
    return "; ".join(out[:12]) or "(always)"

def point(vs, rng, k, ctx):
    env = {}
    scale = (1, 3, Fraction(1, 2), 8, 100)[k % 5]
    for v, sort in sorted(vs.items()):
        if sort == "R":
            if k % 3 == 0: x = Fraction(rng.randint(-24, 24), rng.choice((1, 2, 3, 4)))
            else: x = Fraction(rng.randint(-10**6, 10**6), 10**6) * scale
            env[v] = mpf(x.numerator) / x.denominator
        elif sort == "B": env[v] = rng.random() < 0.5
        else:
            w = int(sort[1:])
            env[v] = E.wrap(rng.randint(-8, 8) if k % 2 else rng.getrandbits(w), w)
    if ctx is None: return env
    # honour the substitutions of the case
    if ctx.rels:
        sc = mpf(1) / (1 << (k % 6))
        for v, sort in vs.items():
            if sort == "R" and k % 2: env[v] *= sc
    for _ in range(3):
        for a, p in ctx.rels.items():
            nm = N.ATOMS[a].name
            if nm not in env: continue
            try: v = num_poly(p, env, vs)
            except NumUndef: return None
            if v < 0: continue
            env[nm] = mpmath.sqrt(v) * (1 if k % 4 < 2 else -1)
        for a, r in ctx.subs.items():
            nm = N.ATOMS[a].name
            if nm not in env: continue
            try: env[nm] = num_rat(r, env, vs)
            except (NumUndef, ZeroDivisionError, Near): return None
    # signs of linear/other facts: try a few repairs on single variables
    for kf, f in ctx.facts.items():
        p = dict(kf)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1:
                at = N.ATOMS[m[0][0]]
                if at.kind == "v" and at.name in env and not isinstance(env[at.name], bool):
                    sg = f
                    if sg == frozenset((1,)) or sg == frozenset((0, 1)): env[at.name] = abs(env[at.name])
                    elif sg == frozenset((-1,)) or sg == frozenset((0, -1)): env[at.name] = -abs(env[at.name])
    return env
def num_atom(a, env, vs):
    at = N.ATOMS[a]
    if at.kind == "v":
        if at.name == "pi": return +mpmath.pi
        if at.name == "inf": return mpf("inf")
        if at.name not in env: env[at.name] = hashval(at.name)
        return mpf(env[at.name])
    if at.rad is not None:
        v = num_poly(at.rad, env, vs)
        if v < 0: raise NumUndef()
        return mpmath.sqrt(v)
    if at.root is not None:
        v = num_poly(at.root[0], env, vs); k = at.root[1]
        if v < 0:
            if k % 2 == 0: raise NumUndef()
            return -mpmath.root(-v, k)
        return mpmath.root(v, k)
    if at.kind == "sin": return mpmath.sin(num_rat(at.args[0], env, vs))
    if at.kind == "cos": return mpmath.cos(num_rat(at.args[0], env, vs))
    x = [num_rat(z, env, vs) for z in at.args]
    try: return NumEval(env).fn(at.name, x)
    except N.Unknown: raise NumUndef()
def num_poly(p, env, vs):
    r = mpf(0)
    for m, c in p.items():
        t = mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpf(c)
        for a, e in m: t *= num_atom(a, env, vs) ** e
        r += t
    return r
def num_rat(r, env, vs):
    n = num_poly(r.n, env, vs)
    for k, e in r.d.items():
        d = num_poly(dict(k), env, vs)
        if d == 0: raise NumUndef()
        n /= d ** e
    return n

# ------------------------------------------------------------------ an obligation pair
class PairResult:
    def __init__(s, name): s.name = name; s.items = []; s.error = None; s.fns = set(); s.time = 0; s.instr = 0

def where(impl, spec):
    """the source lines that built the part of the implementation's term the specification does not have"""
    shared = {n.id for n in E.deps([spec])} if isinstance(spec, Node) else set()
    out = {}
    if not isinstance(impl, Node): return []
    for n in E.deps([impl]):
        if n.id in shared or not n.dbg: continue
        for f, l, fn in n.dbg:
            if "/repo/" in f or f.startswith("geomc/"):
                out[(f.replace("/repo/", ""), fn, l)] = out.get((f.replace("/repo/", ""), fn, l), 0) + 1; break
    return ["%s:%d (%s)" % (f, l, fn) for (f, fn, l), _ in sorted(out.items(), key=lambda kv: -kv[1])[:6]]

def prove_pair(mod, name, impl, spec, opts, sig=None):
    P = PairResult(name); t0 = time.time(); N.reset()
    try:
        A = run_fn(mod, impl, hooks=opts.get("hooks"), maxsteps=opts.get("maxsteps", 3000000), sig=sig)
    except (I.Unsupported, I.Budget, NotImplementedError) as e:
        P.error = "analysis of implementation: %s" % e; P.time = time.time() - t0; return P
    try:
        B = run_fn(mod, spec, hooks=opts.get("hooks"), maxsteps=opts.get("maxsteps", 3000000), sig=sig) if spec else None
    except (I.Unsupported, I.Budget, NotImplementedError) as e:
        P.error = "analysis of specification: %s" % e; P.time = time.time() - t0; return P
    P.fns = {(f, fn) for f, fn in A.ip.lines if "/repo/" in f or f.startswith("geomc/")}
    P.instr = A.ip.steps
    da, alla = deadnode(A.deaths)
    db, allb = deadnode(B.deaths) if B else ({}, E.FALSE)
    assumes = A.assumes + (B.assumes if B else [])
    D = lambda: Decider(assumes, opts.get("leaves", 1500), opts.get("time", 25.0), opts.get("seed", 1))
    for why in sorted(set(da) | set(db)):
        x, y = da.get(why, E.FALSE), db.get(why, E.FALSE)
        if why == I.OUTSIDE: x, y = E.bor(x, y), E.FALSE      # never meant, whichever side it appears on
        r = D().decide(x, y); P.items.append(("ends by %s" % why, r, where(x, y) if r.status == BAD else []))
    if A.dead and (B is None or B.dead):
        P.time = time.time() - t0; return P
    if A.dead != (B.dead if B else False):
        P.time = time.time() - t0; return P
    alive = E.bnot(E.bor(alla, allb))
    guard = None if alive is E.TRUE else alive
    keys = set(A.out) | (set(B.out) if B else set())
    for k in sorted(keys, key=str):
        x = A.out.get(k); y = B.out.get(k) if B else None
        nm = "%s[+%d]" % k
        if B is None:
            xv = x[0]
            if isinstance(xv, Node): yv = E.TRUE if xv.sort == "B" else E.iconst(1 if k[0] == "ret" else 0, E.width(xv)) if xv.sort[0] == "I" else E.ZERO
            else: yv = E.ZERO
        else:
            if x is None or y is None:
                # memory written by only one side: the other left it as it was
                have = x or y
                if k[0][0] == "o":
                    r = Result(); r.status = BAD if x is None else UNK; r.why = "written by only one side"; r.witness = ({}, "not written" if x is None else "written", "written" if y is not None else "not written")
                    P.items.append((nm, r, [])); continue
                o = I.Obj("input", None, k[0])
                try:
                    v = have[0]
                    t = ("double" if have[1] == 8 else "float") if isinstance(v, Node) and v.sort == "R" else "i%d" % (8 * have[1])
                    init = A.ip.inputcell(o, k[1], t)
                except I.Unsupported as e:
                    r = Result(); r.status = UNK; r.why = str(e); P.items.append((nm, r, [])); continue
                xv = x[0] if x is not None else init; yv = y[0] if y is not None else init
            else: xv, yv = x[0], y[0]
            if isinstance(xv, Node) and isinstance(yv, Node) and xv.sort != yv.sort:
                try:
                    if yv.sort == "R": xv = A.ip.conv(xv, "double" if (y or x)[1] == 8 else "float")
                    elif xv.sort == "R": yv = A.ip.conv(yv, "double" if (y or x)[1] == 8 else "float")
                    elif xv.sort == "B": yv = A.ip.conv(yv, "i1")
                    elif yv.sort == "B": xv = A.ip.conv(xv, "i1")
                except I.Unsupported: pass
        r = D().decide(xv, yv, guard)
        P.items.append((nm, r, where(xv, yv) if r.status == BAD else []))
    P.time = time.time() - t0
    return P
