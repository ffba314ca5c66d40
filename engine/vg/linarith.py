"""Exact feasibility of a small conjunction of linear constraints (the polyhedra used to discard decision-diagram
branches whose sign facts contradict each other).  Constraints: (poly dict mono->coef, rel) meaning poly rel 0."""
from fractions import Fraction
def feasible(cons):
    rows = []
    for p, rel in cons:
        c = {m: Fraction(v) for m, v in p.items() if m != ()}
        k = Fraction(p.get((), 0))
        if rel == "=":
            rows.append((c, k, False)); rows.append(({m: -v for m, v in c.items()}, -k, False))
        else: rows.append((c, k, rel == ">"))
    # equality elimination first
    eqs = [(c, k) for (p, rel) in cons if rel == "=" for c, k in [({m: Fraction(v) for m, v in p.items() if m != ()}, Fraction(p.get((), 0)))]]
    ine = [(c, k, s) for (p, rel) in cons if rel != "=" for c, k, s in [({m: Fraction(v) for m, v in p.items() if m != ()}, Fraction(p.get((), 0)), rel == ">")]]
    while eqs:
        c, k = eqs.pop()
        if not c:
            if k != 0: return False
            continue
        v = next(iter(c)); cv = c[v]
        def el(c2, k2):
            if v not in c2: return c2, k2
            f = c2[v] / cv; r = dict(c2)
            for m, x in c.items():
                y = r.get(m, 0) - f * x
                if y: r[m] = y
                else: r.pop(m, None)
            return r, k2 - f * k
        eqs = [el(*e) for e in eqs]
        ine = [el(c2, k2) + (s,) for c2, k2, s in ine]
    # Fourier-Motzkin with de-duplication
    def norm(c, k, s):
        if not c: return None
        g = max(abs(x) for x in c.values())
        return (frozenset((m, x / g) for m, x in c.items()), k / g, s)
    cur = {}
    def put(d, c, k, s):
        if not c:
            return k > 0 or (k == 0 and not s)
        n = norm(c, k, s); o = d.get(n[0])
        if o is None or n[1] < o[0] or (n[1] == o[0] and n[2] and not o[1]): d[n[0]] = (n[1], n[2])
        return True
    for c, k, s in ine:
        if not put(cur, c, k, s): return False
    steps = 0
    while cur:
        cnt = {}
        for c in cur:
            for m, x in c:
                a = cnt.setdefault(m, [0, 0]); a[0 if x > 0 else 1] += 1
        v = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        pos, negs, nxt = [], [], {}
        for c, (k, s) in cur.items():
            d = dict(c); x = d.get(v)
            if x is None: nxt[c] = (k, s)
            elif x > 0: pos.append((d, k, s, x))
            else: negs.append((d, k, s, -x))
        steps += len(pos) * len(negs)
        if steps > 6000: return True      # give up: keep the branch
        for d1, k1, s1, x1 in pos:
            for d2, k2, s2, x2 in negs:
                r = {}
                for m, x in d1.items(): r[m] = x / x1
                for m, x in d2.items():
                    y = r.get(m, 0) + x / x2
                    if y: r[m] = y
                    else: r.pop(m, None)
                r.pop(v, None)
                if not put(nxt, r, k1 / x1 + k2 / x2, s1 or s2): return False
        cur = nxt
    return True
