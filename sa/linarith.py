"""Systems of linear inequalities over integer atoms (a polyhedral domain): emptiness by Fourier-Motzkin elimination."""
from terms import *


def rows_of(forms):
    """forms (terms, each >= 0) -> rows ({atom: coef}, const)"""
    out = []
    for t in forms:
        c, d = lin_parts(t); out.append((d, c))
    return out


def norm(d, c):
    from math import gcd
    g = 0
    for v in d.values(): g = gcd(g, v)
    if g > 1: d = {k: v // g for k, v in d.items()}; c = c // g      # integer tightening
    return d, c


def empty(forms, eqs=(), cap=4000):
    """True when no integer assignment makes all forms >= 0 and all eqs = 0 (sound); False: rationally feasible; None: gave up"""
    ineq = [norm(dict(d), c) for d, c in rows_of(forms)]
    eqr = [(dict(d), c) for d, c in rows_of(eqs)]
    # opposite inequalities are equalities
    low = {}
    for d, c in ineq:
        k = frozenset(d.items())
        if d and (k not in low or low[k] > c): low[k] = c
    for k, c in low.items():
        o = frozenset((x, -v) for x, v in k)
        if o in low and low[o] == -c and sorted(map(repr, k)) < sorted(map(repr, o)): eqr.append((dict(k), c))
    # equalities by substitution
    while eqr:
        d, c = eqr.pop()
        if not d:
            if c != 0: return True
            continue
        x = min(d, key=lambda k: (abs(d[k]), repr(k))); a = d[x]
        if a < 0: d = {k: -v for k, v in d.items()}; c = -c; a = -a
        def subst(e, ec):
            b = e.get(x)
            if not b: return e, ec
            n = {k: v * a for k, v in e.items()}; nc = ec * a
            for k, v in d.items():
                w = n.get(k, 0) - b * v
                if w: n[k] = w
                else: n.pop(k, None)
            return n, nc - b * c
        eqr = [subst(e, ec) for e, ec in eqr]
        ineq = [norm(*subst(e, ec)) for e, ec in ineq]
    rows = {}
    def put(d, c):
        if not d: return c >= 0
        k = tuple(sorted(d.items(), key=lambda x: repr(x[0])))
        if k not in rows or rows[k] > c: rows[k] = c
        return True
    for d, c in ineq:
        if not put(d, c): return True
    while rows:
        occ = {}
        for k in rows:
            for v, a in k: o = occ.setdefault(v, [0, 0]); o[a > 0] += 1
        big = {}
        for k in rows:
            for v, a in k: big[v] = max(big.get(v, 0), abs(a))
        x = min(occ, key=lambda v: (occ[v][0] * occ[v][1] - occ[v][0] - occ[v][1] if not (occ[v][0] and occ[v][1]) else 0, big[v].bit_length() // 32, occ[v][0] * occ[v][1], repr(v)))
        pos, neg, rest = [], [], {}
        for k, c in rows.items():
            a = dict(k).get(x)
            if a is None: rest[k] = c
            elif a > 0: pos.append((dict(k), c, a))
            else: neg.append((dict(k), c, -a))
        rows = rest
        if len(pos) * len(neg) > cap: return None
        for d1, c1, a1 in pos:
            for d2, c2, a2 in neg:
                d = {k: v * a2 for k, v in d1.items()}
                for k, v in d2.items():
                    w = d.get(k, 0) + v * a1
                    if w: d[k] = w
                    else: d.pop(k, None)
                if not put(*norm(d, c1 * a2 + c2 * a1)): return True
        if len(rows) > cap: return None
    return False
