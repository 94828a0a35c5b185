"""P18: secret bits do not decide branches or addresses in scalar multiplication and the conditional swap."""
from scen import *
import ptlayer as pl
from ptlayer import PT
from p02_scalar_mult import ptcurve, gpoint, order, NM, P521
from models import FE, ptr


TAINTED = set()      # loop approximations that stand for secret values


class Lost(AnalysisBroken): pass


def secret(t):
    """the value depends on a secret input (an unknown named 'k' or 'sec...')"""
    if isinstance(t, FE): return secret(t.n) or secret(t.d)
    if isinstance(t, Poly): return any(secret(v) for v in t.vars())
    if isinstance(t, PT): return any(secret(c) for c in t.d.values())
    if isinstance(t, tuple):
        if t and t[0] == "s" and isinstance(t[1], str): return t[1] == "k" or t[1].startswith("sec.")
        if t and t[0] == "s" and isinstance(t[1], tuple) and t[1][0] == "w": return t[1] in TAINTED
        if t and t[0] == "L" and any(secret(x) for x in t[1:]): raise Lost("an object selected by a secret is not followed")
        return any(secret(x) for x in t if isinstance(x, (tuple, FE, Poly, PT)))
    return False


class Hit(Violation): pass


class Watch:
    """stops where a secret decides control flow or an address"""

    def __init__(self, it):
        self.it = it; it.on_branch = self.branch; it.on_fork = self.fork; it.on_address = self.address
        it.on_fixpoint = self.fixpoint; self.grown = False
        it.unknown_call = self.unknown_call
        wv, wc = it.widen_value, it.widen_cell

        def widen_value(fn, b, k, v0, v1, rnd, st):
            if any(v is not None and secret(v) for v in (v0, v1)): TAINTED.add(("w", fn.name, b, k, rnd))
            return wv(fn, b, k, v0, v1, rnd, st)

        def widen_cell(fn, b, x, st, s0, s1, rnd):
            oid, c = x
            if oid != "ghost":
                for s in (st, s0):
                    o = s.heap.get(oid); v = o and o.cells.get(c)
                    if v and secret(v[1]): TAINTED.add(("w", fn.name, b, (oid, c), rnd))
            return wc(fn, b, x, st, s0, s1, rnd)
        it.widen_value, it.widen_cell = widen_value, widen_cell

    def unknown_call(self, name, I, args, st):
        """the result of a function outside the library depends on what its arguments refer to"""
        sec = any(a is not None and (secret(a) or a[0] == "p" and a[1] in st.heap and self.near(st.heap[a[1]], a[2])) for a in args)
        k = st.fresh((I.fn.name, I.blk, I.idx), name)
        v = ("s", ("sec." if sec else "pub.") + f"{name}.{I.fn.name}.{I.blk}.{I.idx}.{k[2]}", 0, name)
        return [(("p", ("L", v), ZERO) if I.ty.k == "ptr" else v, st)]

    def fixpoint(self, fn, b, p0, phis, s0, st, chc):
        """a value that becomes secret only in a later round: note it and interpret again"""
        for k, v in phis.items():
            if k in p0 and v != p0[k] and secret(v) and not secret(p0[k]): self.mark(p0[k])
        for oid, c in chc:
            if oid == "ghost" or c in ("meta", "zero"): continue
            x, y = (s.heap[oid].cells.get(c) if oid in s.heap else None for s in (s0, st))
            if x and y and secret(y[1]) and not secret(x[1]): self.mark(x[1])

    def mark(self, t):
        if isinstance(t, FE): t = ("fe",) + tuple(t.n.vars())
        if isinstance(t, tuple):
            if t and t[0] == "s" and isinstance(t[1], tuple) and t[1][0] == "w" and t[1] not in TAINTED: TAINTED.add(t[1]); self.grown = True
            for x in t: self.mark(x)

    def hit(self, I, msg):
        f, l = self.it.p.loc(I); raise Hit(f"{msg} at {rel(f)}:{l} ({I.fn.name})")

    def branch(self, I, c, st):
        if secret(c): self.hit(I, "a branch depends on a secret value")

    def fork(self, I, name, args, st):
        if name in OPAQUE or name == "mpECurve_cmp": return
        for a in args:
            if a is None: continue
            if secret(a) or a[0] == "p" and a[1] in st.heap and self.near(st.heap[a[1]], a[2]):
                self.hit(I, f"the outcome of {name} on a secret value decides what is done")

    def near(self, o, off):
        return any(secret(v[1]) for k, v in o.cells.items() if k == off or k[0] in absint.DOMS and k[1] == off)

    def address(self, I, off, st):
        c, d = lin_parts(off)
        sec = [a for a in d if secret(a)]
        if sec and (len(sec) > 1 or not self.two(sec[0], st)): self.hit(I, "an address depends on a secret value (more than a choice between two entries)")

    def two(self, a, st):
        if a[0] == "b2i": return True
        lo, hi = st.interval(a)
        return hi - lo <= 1


# group operations are opaque: the result is secret when an operand, or the choice of an operand, is
def point_secret(it, p, st):
    oid, off = ptr(p)
    if secret(off): return True
    o = it.pt_off; ob = st.r(oid)
    for c in "xyz":
        v = ob.cells.get(("fe", add(off, C(o[c]))))
        if v is not None and secret(v[1]): return True
    v = ob.cells.get(add(off, C(o["is_neutral"])))
    return v is not None and secret(v[1])


def m_op(nops):
    def m(it, I, a, st):
        sec = any(point_secret(it, p, st) for p in a[1:1 + nops])
        k = st.fresh(("group", "sec" if sec else "pub"))
        at = ("s", ("sec." if sec else "pub.") + f"pt{k[2]}", 0, "")
        oid, off = ptr(a[0]); cv = pl.pt_curve(it, a[1], st); o = it.pt_off
        fp = st.get(cv[1], add(cv[2], C(o["cvfp"])))
        if fp is None: raise Lost("curve of a point not known")
        for c in "xyz": models.fewr(it, I, ("p", oid, add(off, C(o[c]))), FE(Poly.var(("co", c, at)), ONEP, fp), st)
        ct = pl.curve_type(it, cv, st)
        st.put(oid, add(off, C(o["is_neutral"])), 4, ZERO if ct in (3, 5) else ("bit", at, ONE))
        st.put(oid, add(off, C(o["cvp"])), 8, cv)
        b = st.get(oid, add(off, C(o["base_bits"])))
        if b is not None and b != ZERO:
            st.put(oid, add(off, C(o["base_bits"])), 4, ZERO); st.put(oid, add(off, C(o["base_pt"])), 8, ZERO)
    return m


def m_swap(it, I, a, st):
    x, y = models.ferd(it, I, a[0], st), models.ferd(it, I, a[1], st); sw = num(a[2])
    if sw[0] == "c":
        if sw[1]: models.fewr(it, I, a[0], y, st); models.fewr(it, I, a[1], x, st)
        return
    sec = secret(sw) or secret(x) or secret(y)
    for p in a[:2]:
        k = st.fresh(("swap", sec))
        models.fewr(it, I, p, FE(Poly.var(("s", ("sec." if sec else "pub.") + f"sw{k[2]}", 0, "")), ONEP, x.fp), st)


def m_test(it, I, a, st): return ("bit", ("int", models.ferd(it, I, a[0], st)), num(a[1]))


OPAQUE = {"mpECP_add": m_op(2), "mpECP_sub": m_op(2), "mpECP_double": m_op(1), "mpECP_neg": m_op(1), "mpFp_cswap": m_swap, "mpFp_tstbit": m_test,
          "__gmpz_tstbit": lambda it, I, a, st: ("bit", models.zrd(it, I, a[0], st), num(a[1])), "mpz_set_mpFp": models.F["mpz_set_mpFp"]}


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("every branch condition and computed address met while the function is interpreted with an unknown scalar (or swap flag) is free of the scalar; "
             "an address may depend on one secret bit that chooses between two entries")
    rep.rule("values derived from the scalar (accumulated points, their coordinates and neutral flags, words of field elements) count as secret; "
             "the group operations themselves are opaque")
    fns = {}
    sizes = (2, 3, 8, 9, 17, 64, 65, 257) if tier != "thorough" else (2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 384, 521)
    for kind in KINDS:
        for n in sizes if kind in ("ws", "te") else sizes[:5]:
            obl(rep, f"mpECP_scalar_mul:{kind}:order{n}", prog.where("mpECP_scalar_mul"), fns, mult, prog, kind, n, {})
        for v in ("same", "neutral"): obl(rep, f"mpECP_scalar_mul:{kind}:{v}", prog.where("mpECP_scalar_mul"), fns, mult, prog, kind, 9, {v: 1})
        obl(rep, f"mpECP_cswap:{kind}", prog.where("mpECP_cswap"), fns, ptswap, prog, kind)
    for n in range(1, 17):
        for alias in (False, True):
            obl(rep, f"mpFp_cswap:{n}w" + (":self" if alias else ""), prog.where("mpFp_cswap"), fns, fpswap, prog, n, alias)
        obl(rep, f"mpFp_tstbit:{n}w", prog.where("mpFp_tstbit"), fns, tstbit, prog, n)
    rep.cover["functions_interpreted"] = fns
    rep.assume.append("point addition, doubling and negation are opaque steps: branches on special points inside them are outside the property")


def scalar(D, S, n):
    nfp = ("p", ("F", C(n)), ZERO)
    sc = D.obj(S[0], "k", kind="malloc"); f = FE(Poly.var(("s", "k", 0, "k")), ONEP, nfp)
    for s in S:
        s.heap[sc[1]] = S[0].heap[sc[1]]; o = s.w(sc[1]); o.cells[("fe", ZERO)] = (16, f); o.cells[C(16)] = (8, nfp); o.res[("fe", ZERO)] = "live"
    return sc


def finish(D, f, *a):
    TAINTED.clear(); wv, wc = D.it.widen_value, D.it.widen_cell
    for _ in range(8):
        W = Watch(D.it); D.do(f, *a[:-1], [s.copy() for s in a[-1]])
        D.it.widen_value, D.it.widen_cell = wv, wc
        if not W.grown: return D, "ok", ""
    raise AnalysisBroken("dependences in loops do not stabilise")


def mult(prog, kind, nb, opt):
    n = order(nb); p = P521 if nb > 130 else (1 << 61) - 1
    D = ptcurve(prog, kind, n, p, extra=OPAQUE); it = D.it; S = D.S
    if "neutral" in opt: P, S = D.point("P", S, neutral=True)
    else: P, S = gpoint(D, S, "P")
    if "same" in opt: R = P
    else: R, S = D.point("R", S, neutral="blank")
    sc = scalar(D, S, n)
    return finish(D, "mpECP_scalar_mul", [R, P, sc], S)


def ptswap(prog, kind):
    D = ptcurve(prog, kind, order(9), (1 << 61) - 1, extra=OPAQUE); it = D.it; S = D.S
    P, S = gpoint(D, S, "P"); R, S = gpoint(D, S, "R")
    for s in S:
        for p, nm in ((P, "P"), (R, "R")):
            pl.pt_write(it, None, p, PT({nm: FE(Poly.var(("bit", ("s", "sec." + nm, 0, nm), C(3))), ONEP, None)}), D.cv, s)
    res = None
    for sw in (("bit", ("s", "sec.swap", 0, "swap"), ZERO), ("s", "sec.swap", 0, "swap")):
        D2 = finish(D, "mpECP_cswap", [P, R, sw], [s.copy() for s in S])
        if D2[1] != "ok": return D2
    return D, "ok", ""


def element(D, st, name, n, fp, words="sec."):
    """a raw field element: n words in a buffer"""
    o = {k: v for k, (v, _) in D.p.offsets("_mpFp_struct").items()}
    e = D.obj(st, name, 24, kind="malloc"); d = D.obj(st, name + ".words", 16 * n, kind="malloc")
    for k in range(n): st.heap[d[1]].cells[C(8 * k)] = (8, ("s", f"{words}{name}{k}", 0, f"{name}[{k}]"))
    c = st.heap[e[1]].cells
    c[C(o["i"])] = (4, C(2 * n)); c[C(o["i"] + 4)] = (4, C(n)); c[C(o["i"] + 8)] = (8, d); c[C(o["fp"])] = (8, fp)
    return e


def raw(prog, n):
    D = Driver(prog, layer="raw"); it = D.it; st = D.st0
    it.mux_bits = True; it.unroll = 1 << 16
    o = {k: v for k, (v, _) in prog.offsets("_mpFp_field_struct").items()}
    fp = D.obj(st, "field", 256); c = st.heap[fp[1]].cells
    c[C(o["psize"])] = (4, C(n)); c[C(o["p2size"])] = (4, C(2 * n))
    return D, st, fp


def fpswap(prog, n, alias):
    D, st, fp = raw(prog, n)
    a = element(D, st, "a", n, fp); b = a if alias else element(D, st, "b", n, fp)
    D.it.models.pop("mpFp_cswap", None)
    for sw in (("bit", ("s", "sec.swap", 0, "swap"), ZERO), ("s", "sec.swap", 0, "swap")):
        r = finish(D, "mpFp_cswap", [a, b, sw], [st.copy()])
        if r[1] != "ok": return r
    return r


def tstbit(prog, n):
    D, st, fp = raw(prog, n); a = element(D, st, "a", n, fp)
    for m in ("mpFp_tstbit", "__gmpz_tstbit"): D.it.models.pop(m, None)
    D.it.models["__gmpz_tstbit"] = lambda it, I, a, st: ("bit", ("s", "sec.bits", 0, ""), num(a[1]))
    for i in sorted({0, 1, 63, 64 * n - 1, 64 * n // 2}):
        r = finish(D, "mpFp_tstbit", [a, C(i)], [st.copy()])
        if r[1] != "ok": return r
    return r
