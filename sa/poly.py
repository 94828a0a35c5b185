"""Exact multivariate polynomials over Q, with reduction by rewriting rules var**k -> poly
(normal form modulo the curve equation)."""
from fractions import Fraction


class Poly:
    __slots__ = ("d", "_h", "_r")

    def __init__(self, d=None): self.d = d or {}; self._h = None; self._r = None

    @staticmethod
    def const(c): return Poly({(): c}) if c else Poly()

    @staticmethod
    def var(v): return Poly({((v, 1),): 1})

    def __add__(a, b):
        d = dict(a.d)
        for m, c in b.d.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: d.pop(m, None)
        return Poly(d)

    def __neg__(a): return Poly({m: -c for m, c in a.d.items()})
    def __sub__(a, b): return a + (-b)

    def __mul__(a, b):
        d = {}
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                m = mono_mul(m1, m2); v = d.get(m, 0) + c1 * c2
                if v: d[m] = v
                else: d.pop(m, None)
        return Poly(d)

    def scale(a, c): return Poly({m: k * c for m, k in a.d.items()}) if c else Poly()

    def __pow__(a, n):
        r = Poly.const(1); b = a
        while n:
            if n & 1: r = r * b
            n >>= 1
            if n: b = b * b
        return r

    def is_zero(a): return not a.d
    def is_const(a): return all(m == () for m in a.d)
    def cval(a): return a.d.get((), 0)
    def __eq__(a, b): return isinstance(b, Poly) and a.d == b.d
    def __hash__(a):
        if a._h is None: a._h = hash(frozenset(a.d.items()))
        return a._h

    def vars(a):
        return {v for m in a.d for v, _ in m}

    def subst(a, env):
        r = Poly()
        for m, c in a.d.items():
            t = Poly.const(c)
            for v, e in m:
                t = t * ((env[v] ** e) if v in env else Poly({((v, e),): 1}))
            r = r + t
        return r

    def __repr__(a):
        if a._r is None: a._r = a.text()
        return a._r

    def text(a):
        if not a.d: return "0"
        out = []
        for m, c in sorted(a.d.items(), key=lambda x: repr(x[0]))[:24]:
            mm = "*".join(str(v if isinstance(v, str) else vname(v)) + (f"^{e}" if e > 1 else "") for v, e in m)
            out.append((f"{c}" if not mm else (mm if c == 1 else f"{c}*{mm}")))
        return " + ".join(out) + (f" + ...#{hash(a)}" if len(a.d) > 24 else "")


def vname(v):
    if not isinstance(v, tuple) or not v: return str(v)
    if v[0] == "s" and len(v) > 3: return str(v[3]) or "v"
    if not isinstance(v[0], str): return "(" + ",".join(vname(x) for x in v) + ")"
    return v[0] + "(" + ",".join(vname(x) for x in v[1:]) + ")"


def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for v, e in b: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items(), key=lambda x: repr(x[0])))


class Ring:
    """rules: list of (var, k, Poly): var**k -> Poly, applied to a fixpoint (terminating order assumed)."""

    def __init__(self, rules=()): self.rules = list(rules)

    def nf(self, p):
        changed = True
        while changed:
            changed = False
            for v, k, r in self.rules:
                while True:
                    hit = False; keep = {}; add = Poly()
                    for m, c in p.d.items():
                        e = 0
                        for vv, ee in m:
                            if vv == v: e = ee
                        if e >= k:
                            hit = True
                            q, rem = divmod(e, k)
                            mm = tuple(sorted([(vv, ee) for vv, ee in m if vv != v] + ([(v, rem)] if rem else []), key=lambda x: repr(x[0])))
                            add = add + Poly({mm: c}) * (r ** q)
                        else: keep[m] = c
                    if not hit: break
                    p = Poly(keep) + add; changed = True
        return p


class FE:
    """field element num/den, in the field with descriptor pointer fp"""
    __slots__ = ("n", "d", "fp", "_h", "_r")

    def __init__(self, n, d, fp): self.n, self.d, self.fp = n, d, fp; self._h = None; self._r = None
    def __eq__(a, b): return isinstance(b, FE) and a.n == b.n and a.d == b.d and a.fp == b.fp
    def __hash__(a):
        if a._h is None: a._h = hash((a.n, a.d, a.fp))
        return a._h
    def __repr__(a):
        if a._r is None: a._r = f"({a.n})" + ("" if a.d == ONEP else f"/({a.d})")
        return a._r


ONEP = Poly.const(1)
