"""Unsigned value ranges of integer terms, from their structure and from the assumptions that hold.

A term is written as c + sum k_i x_i modulo 2^w; when the exact value of that combination lies, for all
values the x_i can take, within one interval [m 2^w, (m+1) 2^w), the unsigned value of the term IS the
combination less m 2^w, and comparisons, quotients and remainders follow by exact arithmetic."""
from . import expr as E
from .expr import iconst, const
def modlin(n, w, k=1, d=None):
    """n*k as [c, {x: k}] modulo 2^w"""
    if d is None: d = [0, {}]
    if E.isc(n): d[0] += k * E.uns(n)
    elif n.op == "iadd": modlin(n.args[0], w, k, d); modlin(n.args[1], w, k, d)
    elif n.op == "imul" and E.isc(n.args[0]): modlin(n.args[1], w, k * E.cv(n.args[0]), d)
    else: d[1][n] = d[1].get(n, 0) + k
    return d
def sgn(k, w):
    k &= (1 << w) - 1
    return k - (1 << w) if k >> (w - 1) else k
class Range:
    def __init__(self, assumes):
        self.hi = {}; self.lo = {}
        for a in assumes: self.learn(a)
    def learn(self, a):
        if a.op == "ite" and a.args[2] is E.FALSE: self.learn(a.args[0]); self.learn(a.args[1]); return
        neg = a.op == "not"
        if neg: a = a.args[0]
        if a.op in ("lt", "le") and a.args[0].sort[0] == "I":
            # signed: a bound by a non-negative constant from below is one from above as well
            x, y = a.args; strict = a.op == "lt"
            if neg: x, y = y, x; strict = not strict
            if E.isc(x) and E.cv(x) + strict >= 0:
                self.lo[y] = max(self.lo.get(y, 0), E.cv(x) + strict); self.hi[y] = min(self.hi.get(y, 1 << 300), (1 << (E.width(y) - 1)) - 1)
            return
        if a.op == "eq" and a.args[0].sort[0] == "I":
            for x, y in (a.args, a.args[::-1]):
                if E.isc(y):
                    k = E.uns(y); top = (1 << E.width(x)) - 1
                    if not neg: self.lo[x] = self.hi[x] = k
                    elif k == 0: self.lo[x] = max(self.lo.get(x, 0), 1)
                    elif k == top: self.hi[x] = min(self.hi.get(x, top), top - 1)
            return
        if a.op not in ("ult", "ule"): return
        x, y = a.args; strict = a.op == "ult"
        if neg: x, y = y, x; strict = not strict
        if E.isc(y): self.hi[x] = min(self.hi.get(x, 1 << 300), E.uns(y) - strict)
        if E.isc(x): self.lo[y] = max(self.lo.get(y, 0), E.uns(x) + strict)
    def atom(self, n):
        w = E.width(n); lo, hi = 0, (1 << w) - 1; o = n.op
        if o == "zext":
            x = n.args[0]
            if x.sort == "B": lo, hi = 0, 1
            else: lo, hi = self.rng(x)
        elif o == "trunc":
            a, b = self.rng(n.args[0])
            if b <= hi: lo, hi = a, b
        elif o == "iurem" and E.isc(n.args[1]) and E.uns(n.args[1]): hi = min(hi, E.uns(n.args[1]) - 1)
        elif o == "iand":
            for x in n.args:
                if E.isc(x): hi = min(hi, E.uns(x))
        elif o == "ilshr" and E.isc(n.args[1]) and E.uns(n.args[1]) < w: hi >>= E.uns(n.args[1])
        elif o == "iudiv" and E.isc(n.args[1]) and E.uns(n.args[1]): hi //= E.uns(n.args[1])
        elif o == "ite":
            a, b = self.rng(n.args[1]), self.rng(n.args[2]); lo, hi = min(a[0], b[0]), max(a[1], b[1])
        return max(lo, self.lo.get(n, 0)), min(hi, self.hi.get(n, hi))
    def exact(self, n):
        """(c, {x: k}, lo, hi): the unsigned value of n, exactly; None if it may wrap"""
        w = E.width(n); d = modlin(n, w); M = 1 << w
        ks = {x: k for x, k in d[1].items() if k % M}
        for f in (lambda k: sgn(k, w), lambda k: k % M):
            k2 = {x: f(k) for x, k in ks.items()}; lo = hi = d[0]
            for x, k in k2.items():
                a, b = self.atom(x)
                lo += k * (a if k > 0 else b); hi += k * (b if k > 0 else a)
            m = lo // M
            if hi // M == m:
                out = [d[0] - m * M, {}]
                for x, k in k2.items():
                    y = x
                    small = y.op == "trunc" and self.rng(y.args[0])[1] < 1 << E.width(y)
                    if small or y.op == "zext" and y.args[0].sort != "B":
                        e = self.exact(y.args[0])
                        if e:
                            out[0] += k * e[0]
                            for z, j in e[1].items(): out[1][z] = out[1].get(z, 0) + k * j
                            continue
                    out[1][y] = out[1].get(y, 0) + k
                return out[0], {x: k for x, k in out[1].items() if k}, lo - m * M, hi - m * M
    def rng(self, n):
        if E.isc(n): return E.uns(n), E.uns(n)
        e = self.exact(n)
        a = (e[2], e[3]) if e else (0, (1 << E.width(n)) - 1)
        return max(a[0], self.lo.get(n, 0)), min(a[1], self.hi.get(n, a[1]))
    def build(self, c, ks, w):
        r = iconst(c, w)
        for x, k in sorted(ks.items(), key=lambda t: t[0].id):
            if E.width(x) < w: x = E.icast("zext", x, w)
            elif E.width(x) > w: x = E.icast("trunc", x, w)
            r = E.ibin("add", r, E.ibin("mul", iconst(k, w), x, w), w)
        return r
    def low(self, a, k):
        """the remainder of a by a power of two, which no wrapping of a can change"""
        w = E.width(a); d = modlin(a, w); r = {}; todo = list(d[1].items()); at = []
        while todo:
            x, j = todo.pop()
            if j % k == 0: continue
            if x.op in ("zext", "trunc") and x.args[0].sort != "B" and k <= 1 << min(E.width(x), E.width(x.args[0])):
                e = modlin(x.args[0], E.width(x.args[0])); d[0] += j * e[0]; todo += [(y, j * i) for y, i in e[1].items()]
            else: at.append((x, j))
        lo = hi = d[0]
        for x, j in at:
            r[x] = r.get(x, 0) + j; s, t = self.rng(x)
            lo += j * (s if j > 0 else t); hi += j * (t if j > 0 else s)
        m = lo // k
        return self.build(d[0] - m * k, r, w) if hi // k == m else None
    def split(self, a, k):
        """(quotient, remainder) terms of a by the constant k, or None"""
        e = self.exact(a); w = E.width(a)
        if not e: return None
        q = {x: j // k for x, j in e[1].items() if j % k == 0}
        r = {x: j for x, j in e[1].items() if j % k}
        lo = hi = e[0]
        for x, j in r.items():
            s, t = self.rng(x)
            lo += j * (s if j > 0 else t); hi += j * (t if j > 0 else s)
        m = lo // k
        if hi // k != m: return None
        return self.build(m, q, w), self.build(e[0] - m * k, r, w)
    def divrem(self, op, a, b):
        if op in ("or", "add") and a.op == b.op == "iand":
            # pieces of one value
            for x, m in (a.args, a.args[::-1]):
                for y, n in (b.args, b.args[::-1]):
                    if x is y and E.isc(m) and E.isc(n) and not E.uns(m) & E.uns(n):
                        k = iconst(E.uns(m) | E.uns(n), E.width(x)); r = self.divrem("and", x, k)
                        return r if r is not None else E.ibin("and", x, k, E.width(x))
        if op == "add": return None
        if not E.isc(b) or E.isc(a): return None
        k = E.uns(b)
        if op in ("or", "xor"): return E.ibin("add", a, b, E.width(a)) if k and self.rng(a)[1] < (k & -k) else None
        if op == "and":
            c = ~k & ((1 << E.width(a)) - 1)
            if c and not c & (c + 1) and c + 1 < 1 << E.width(a):
                s = self.low(a, c + 1)
                return s and E.ibin("sub", a, s, E.width(a))
            if k & (k + 1): return None
            k += 1; op = "urem"
        elif op == "lshr":
            if k >= E.width(a): return None
            k = 1 << k; op = "udiv"
        if k < 2: return None
        if op == "urem" and not k & (k - 1): return self.low(a, k)
        s = self.split(a, k)
        return s and s[0 if op == "udiv" else 1]
    def cmp(self, pred, a, b):
        """True/False/None for an unsigned comparison"""
        if pred in ("ugt", "uge"): a, b = b, a; pred = "ult" if pred == "ugt" else "ule"
        if pred in ("eq", "ne"):
            (p, q), (u, v) = self.rng(a), self.rng(b)
            if q < u or v < p: return pred == "ne"
            return None
        s = pred == "ult"
        x, y = self.exact(a), self.exact(b)
        if x and y:
            c = x[0] - y[0]; ks = dict(x[1])
            for z, k in y[1].items(): ks[z] = ks.get(z, 0) - k
            lo = hi = c
            for z, k in ks.items():
                p, q = self.rng(z); lo += k * (p if k > 0 else q); hi += k * (q if k > 0 else p)
            if (hi < 0) if s else (hi <= 0): return True
            if (lo >= 0) if s else (lo > 0): return False
        (p, q), (u, v) = self.rng(a), self.rng(b)
        if (q < u) if s else (q <= u): return True
        if (p >= v) if s else (p > v): return False
        return None
