"""Nonlinear contradictions: a non-negative combination of the facts of a case and of their pairwise products that is
identically a negative number (a Positivstellensatz certificate of degree two in the facts).  A floating-point linear
program proposes the combination; it only counts once it has been solved again, and checked, in exact rationals."""
from fractions import Fraction
import numpy as np
from scipy.optimize import linprog
from scipy.sparse import csc_matrix
def certificate(ine, eqs):
    """ine: [(poly, strict)], eqs: [poly]: polynomials as {monomial: coefficient}.  A list of (index, multiplier) or None."""
    cols = [(dict(p), st) for p, st in ine] + [({(): 1}, True)]
    n = len(cols)
    full = cols + [(dict(p), None) for p in eqs]
    ms = {}
    for p, _ in full:
        for m in p: ms.setdefault(m, len(ms))
    # scale each column
    I, J, D = [], [], []
    sc = []
    for j, (p, _) in enumerate(full):
        g = max(abs(Fraction(c)) for c in p.values()); sc.append(g)
        for m, c in p.items(): I.append(ms[m]); J.append(j); D.append(float(Fraction(c) / g))
    strict = [j for j, (p, st) in enumerate(full) if st]
    R = len(ms)
    for j in strict: I.append(R); J.append(j); D.append(1.0)
    A = csc_matrix((D, (I, J)), shape=(R + 1, len(full))); b = np.zeros(R + 1); b[R] = 1
    cost = [1.0] * n + [0.0] * len(eqs)
    try: r = linprog(cost, A_eq=A, b_eq=b, bounds=[(0, None)] * n + [(None, None)] * len(eqs), method="highs", options=dict(time_limit=10.0))
    except Exception: return None
    if r.status != 0: return None
    sup = [j for j in range(len(full)) if abs(r.x[j]) > 1e-9]
    if len(sup) > 120: return None
    # exact solution on the support
    rows = {}
    for q, j in enumerate(sup):
        for m, c in full[j][0].items(): rows.setdefault(m, {})[q] = Fraction(c)
    aug = [(v, Fraction(0)) for v in rows.values()] + [({q: Fraction(1) for q, j in enumerate(sup) if full[j][1]}, Fraction(1))]
    piv = {}
    for v, k in aug:
        v = dict(v)
        for q in [q for q in v if q in piv]:
            f = v.pop(q, 0)
            if not f: continue
            pv, pk = piv[q]
            for t, c in pv.items():
                y = v.get(t, 0) - f * c
                if y: v[t] = y
                else: v.pop(t, None)
            k -= f * pk
        if not v:
            if k != 0: return None
            continue
        q = max(v, key=lambda t: abs(r.x[sup[t]])); f = v.pop(q)
        v = {t: c / f for t, c in v.items()}; k = k / f
        for o, (pv, pk) in list(piv.items()):
            if q in pv:
                c0 = pv.pop(q)
                for t, c in v.items():
                    y = pv.get(t, 0) - c0 * c
                    if y: pv[t] = y
                    else: pv.pop(t, None)
                piv[o] = (pv, pk - c0 * k)
        piv[q] = (v, k)
    val = {}
    for q in range(len(sup)):
        if q not in piv: val[q] = Fraction(float(r.x[sup[q]] / float(1))).limit_denominator(10**6) / 1
    for q, (v, k) in piv.items(): val[q] = k - sum(c * val[t] for t, c in v.items())
    for q, j in enumerate(sup):
        if j < n and val[q] < 0: return None
    # check: identically zero, with positive weight on something strictly positive
    tot = {}
    for q, j in enumerate(sup):
        for m, c in full[j][0].items():
            y = tot.get(m, 0) + val[q] * c
            if y: tot[m] = y
            else: tot.pop(m, None)
    if tot: return None
    if not sum(val[q] for q, j in enumerate(sup) if full[j][1]) > 0: return None
    return [(j, val[q]) for q, j in enumerate(sup) if val[q]]
