"""Curve scenarios: abstract curve and points whose unknowns satisfy the curve equation."""
import random
from driver import *
from absint import Interp

KINDS = ("ws", "ed", "te", "mo")
inv = lambda a: pow(a % Q, -1, Q)


# ---- reference affine group law over GF(Q); None is the neutral element of ws/mo
def ref_on(kind, co, P):
    if P is None: return True
    x, y = P
    if kind == "ws": return (y * y - x ** 3 - co["a"] * x - co["b"]) % Q == 0
    if kind == "mo": return (co["B"] * y * y - x ** 3 - co["A"] * x * x - x) % Q == 0
    if kind == "ed": return (x * x + y * y - co["c"] ** 2 * (1 + co["d"] * x * x * y * y)) % Q == 0
    return (co["a"] * x * x + y * y - 1 - co["d"] * x * x * y * y) % Q == 0


def ref_neutral(kind, co): return {"ws": None, "mo": None, "ed": (0, co.get("c")), "te": (0, 1)}[kind]


def ref_neg(kind, co, P):
    if P is None: return None
    x, y = P
    return (x, -y % Q) if kind in ("ws", "mo") else (-x % Q, y)


def ref_add(kind, co, P, R):
    if kind in ("ed", "te"):
        (x1, y1), (x2, y2) = P, R
        k = co["d"] * x1 * x2 * y1 * y2 % Q
        if kind == "ed":
            c = co["c"]
            return ((x1 * y2 + y1 * x2) * inv(c * (1 + k)) % Q, (y1 * y2 - x1 * x2) * inv(c * (1 - k)) % Q)
        return ((x1 * y2 + y1 * x2) * inv(1 + k) % Q, (y1 * y2 - co["a"] * x1 * x2) * inv(1 - k) % Q)
    if P is None: return R
    if R is None: return P
    (x1, y1), (x2, y2) = P, R
    if x1 == x2 and (y1 + y2) % Q == 0: return None
    if kind == "ws":
        l = (3 * x1 * x1 + co["a"]) * inv(2 * y1) % Q if P == R else (y2 - y1) * inv(x2 - x1) % Q
        x3 = (l * l - x1 - x2) % Q
    else:
        A, B = co["A"], co["B"]
        l = (3 * x1 * x1 + 2 * A * x1 + 1) * inv(2 * B * y1) % Q if P == R else (y2 - y1) * inv(x2 - x1) % Q
        x3 = (B * l * l - A - x1 - x2) % Q
    return (x3, (l * (x1 - x3) - y1) % Q)


def order2(kind, co):
    """a point of order two (kind ws needs a curve sampled with a rational root e)"""
    if kind == "ws": return (co["e"], 0)
    if kind == "mo": return (0, 0)
    if kind == "ed": return (0, -co["c"] % Q)
    return (0, Q - 1)


PT = None


def pt_offsets(prog):
    o = prog.offsets("_p_mpECP_t")
    return {k: v[0] for k, v in o.items()}


class Curve(Driver):
    """a driver with one curve object 'cv' of the given type, set through the library's own setter"""

    NS = 3

    def __init__(self, prog, kind, points, seed=11, torsion2=False, extra=None, via="mpz", layer="fe", special=None, mk=True, spare=0):
        """points: {name: fn(kind, co, list of sample points) -> affine pair or None}"""
        super().__init__(prog, extra, layer=layer)
        it = self.it; it.parse_may_fail = False; it.generic = True
        self.kind = kind; self.samples = []; rnd = random.Random(seed)
        vals = []; self.pts = []
        st = self.st0
        setter, n1, n2 = SETTER[kind]
        zp = self.mpz(st, "p"); self.fp = ("p", ("F", ("s", "p", 0, "p")), ZERO)
        zc1, zc2, zn, zh, zgx, zgy = (self.mpz(st, x) for x in (n1, n2, "n", "h", "Gx", "Gy"))
        for k in range(self.NS):
            co, pts = sample_curve(kind, rnd, 5, torsion2)
            if special: special(co, pts, rnd)
            self.pts.append(pts)
            aff = {nm: f(kind, co, pts) for nm, f in points.items()}
            for nm, P in aff.items():
                if not ref_on(kind, co, P): raise AssertionError("driver: sample point off curve")
            b = {}
            for nm in co: self._setv(b, nm, co[nm])
            self._setv(b, "Gx", pts[4][0]); self._setv(b, "Gy", pts[4][1])
            for nm, P in aff.items():
                if P is not None: self._setv(b, nm + ".x", P[0]); self._setv(b, nm + ".y", P[1])
            vals.append(Val(b, k)); self.samples.append((co, aff))
        it.vals = Valuations(vals)
        self.zp = {"p": zp, "1": zc1, "2": zc2, "n": zn, "h": zh, "Gx": zgx, "Gy": zgy}
        self.S = [st]
        if mk:
            self.cv, self.S = self.mkcurve("cv", self.S)
        self.off = pt_offsets(prog)
        it.aborts.clear()

    def mkcurve(self, name, S, kind=None, bits=None, **over):
        """a curve object made by the library from the scenario's parameters (or other integers)"""
        kind = kind or self.kind; setter = SETTER[kind][0]
        cv = self.obj(S[0], name, kind="malloc")
        for s in S[1:]: s.heap[cv[1]] = S[0].heap[cv[1]]
        S = self.dos("mpECurve_init", [cv], S)
        z = dict(self.zp); z.update({k.strip("_"): v for k, v in over.items()})
        r = self.do(setter, [cv, z["p"], z["1"], z["2"], z["n"], z["h"], z["Gx"], z["Gy"], bits or C(521)], S)
        self.setter_results = r
        good = [s for v, s in r if v == ZERO]
        if not good: raise AnalysisBroken(f"{setter}: no accepting path on a valid curve")
        return cv, good

    def _setv(self, b, nm, v):
        at = ("s", nm, 0, nm); b[at] = v % Q
        b[("red", at, ("p", ("F", ("s", "p", 0, "p")), ZERO))] = v % Q

    def zatom(self, nm): return ("s", nm, 0, nm)

    def point(self, name, S, neutral=False, cv=None, scale=None, set_as=None):
        """a library point object holding the affine point `set_as or name`"""
        cv = cv or self.cv; a = set_as or name
        p = self.obj(S[0], "pt." + name, kind="malloc")
        o = S[0].heap[p[1]]
        for s in S[1:]: s.heap[p[1]] = o
        S = self.dos("mpECP_init", [p, cv], S)
        if neutral == "blank": return p, S
        if neutral: S = self.dos("mpECP_set_neutral", [p, cv], S)
        else:
            for s in S:
                if ("I", a + ".x") not in s.heap: self.mpz(s, a + ".x"); self.mpz(s, a + ".y")
            S = self.dos("mpECP_set_mpz", [p, ("p", ("I", a + ".x"), ZERO), ("p", ("I", a + ".y"), ZERO), cv], S)
        if scale: self.scale(p, S, scale)
        return p, S

    WEIGHTS = (1, 1, 1)

    def scale(self, p, S, lam):
        """replace the representation (X:Y:Z) by another one of the same point"""
        for s in S:
            l = FE(Poly.var(("s", lam, 0, lam)), ONEP, self.fp)
            for f, w in zip("xyz", self.WEIGHTS):
                off = C(self.off[f]); v = ferd(self.it, None, ("p", p[1], off), s)
                o = s.w(p[1]); o.cells[("fe", off)] = (16, fmul(v, fpow(l, w)))

    def affine(self, p, S, which="mpz"):
        """[(state, (xFE-or-term, yFE-or-term))] through the public accessors"""
        out = []
        for s0 in S:
            s = s0.copy()
            zx = self.mpz(s, f"out.x{id(s0)}", ZERO); zy = self.mpz(s, f"out.y{id(s0)}", ZERO)
            R = self.dos("mpz_set_mpECP_affine_x", [zx, p], [s])
            R = self.dos("mpz_set_mpECP_affine_y", [zy, p], R)
            for r in R: out.append((s0, r, (r.heap[zx[1]].cells[("z", ZERO)][1], r.heap[zy[1]].cells[("z", ZERO)][1])))
        return out

    def evalt(self, t):
        """values of a term at the samples"""
        return [v.int(t) for v in self.it.vals.vals]

    def fep(self, s, p, f): return ferd(self.it, None, ("p", p[1], C(self.off[f])), s)


def clean_term(t):
    """the term contains only unknowns that stand for inputs (no unmodelled value)"""
    if isinstance(t, tuple):
        if t and t[0] == "s" and isinstance(t[1], str): return True
        if t and t[0] in ("s", "uninit", "badinv", "badsqrt", "op", "undef"): return t[0] in ("uninit", "badinv")
        return all(clean_term(x) for x in t[1:] if isinstance(x, (tuple, FE, Poly)))
    if isinstance(t, FE): return clean_term(t.n) and clean_term(t.d)
    if isinstance(t, Poly): return all(clean_term(v) for v in t.vars())
    return True


EVENTS = ("uninit-read", "uninit-write", "use-after-clear", "use-after-free", "field-mismatch", "uninit-branch", "double-clear", "clear-uninit", "double-free", "free-uninit", "null-deref")


def truthy(it, s, v):
    """is the status v nonzero? True, False or None"""
    return it.truth(it.icmp("ne", absint.num(v), ZERO, s), s)


def statuses(it, out):
    """(status nonzero?, state, rest...) for every outcome (status, state, rest...); an open status is split"""
    for v, s, *rest in out:
        c = it.icmp("ne", absint.num(v), ZERO, s); t = it.truth(c, s)
        for b in ((t,) if t is not None else (False, True)):
            s1 = s if t is not None else s.copy()
            if t is not None or it.assume(c, b, s1): yield (b, s1, *rest)


def trouble(D, na, ne, ok_abort=False, kinds=EVENTS):
    """description of an assertion failure or of a misuse recorded since the marks"""
    it = D.it
    if len(it.aborts) > na and not ok_abort:
        f, l = it.p.loc(it.aborts[na][0]); return f"reaches an assertion failure at {rel(f)}:{l}"
    old = set(id(e) for e in it.events[:ne])
    for e in it.live_events():
        if id(e) not in old and e["kind"] in kinds: return f"{e['msg']} ({e['file']}:{e['line']})"


def obl(rep, key, where, fns, f, *a):
    """one obligation f(*a) -> (driver, status, message); decided when the report is finished, several at a time"""
    rep.tasks.append((key, where, fns, f, a))
