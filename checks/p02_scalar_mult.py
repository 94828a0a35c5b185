from scen import *
import ptlayer as pl
from ptlayer import PT, O, base

NM = {"ws": "short Weierstrass", "ed": "Edwards", "te": "twisted Edwards", "mo": "Montgomery"}
P521 = (1 << 521) - 1
P127 = (1 << 127) - 1


def order(bits): return (1 << bits) - 1 if bits < 3 else (1 << (bits - 1)) + (1 << (bits // 2)) + 1


QUICK = {"mul": (2, 3, 7, 8, 9, 17, 64, 65, 128, 256, 257, 384, 521, 522), "base": (2, 7, 8, 9, 15, 16, 17, 24, 25)}
THOROUGH = {"mul": tuple(range(2, 70)) + (127, 128, 129, 191, 192, 193, 224, 255, 256, 257, 320, 383, 384, 385, 447, 448, 511, 512, 513, 520, 521, 522, 528, 640, 1023, 1024),
            "base": tuple(range(2, 36)) + (63, 64, 65, 127, 128, 129, 255, 256, 257, 384, 521)}


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("for every listed size of the group order the multiplication loops are interpreted completely with every bit of the scalar unknown: "
             "the result is the sum of bit i times 2^i times the point, for all 2^N scalars at once (multilinear in the bits)")
    rep.rule("integer scalars are reduced modulo the group order; the result may be the same object as the point; a neutral point gives the neutral element")
    sizes = THOROUGH if tier == "thorough" else QUICK
    fns = {}
    for kind in KINDS:
        for fn, grp in (("mpECP_scalar_mul", "mul"), ("mpECP_scalar_base_mul", "base"), ("mpECP_scalar_mul_mpz", "mul"), ("mpECP_scalar_base_mul_mpz", "base")):
            main = grp == "mul" and fn.endswith("mul") or fn == "mpECP_scalar_base_mul"
            ss = sizes[grp]
            if not main or kind not in ("ws", "te"): ss = [x for x in ss if x in (3, 8, 9, 17, 65, 257)]
            if kind != "ws" and tier != "thorough": ss = [x for x in ss if x <= 257]
            for n in sorted(ss, reverse=True):
                obl(rep, f"{fn}:{kind}:order{n}", prog.where(fn), fns, mult, prog, kind, fn, n, {})
            for v in ("same", "neutral", "longfield", "shortfield"):
                obl(rep, f"{fn}:{kind}:{v}", prog.where(fn), fns, mult, prog, kind, fn, {"longfield": 9, "shortfield": 17}.get(v, 8), {v: 1})
    for kind in KINDS:
        obl(rep, f"mpECP_urandom:{kind}", prog.where("mpECP_urandom"), fns, rnd, prog, kind)
    rep.cover["functions_interpreted"] = fns
    rep.cover["order_sizes"] = {k: list(v) for k, v in sizes.items()}
    rep.assume.append("mpECP_add, double, sub and neg compute the group law (decided by P01); the group order given is a multiple of the order of the point")


def ptcurve(prog, kind, n, p=None, extra=None):
    """a curve with concrete field prime and group order; points are formal combinations"""
    ex = dict(pl.POINT); ex.update(extra or {})
    D = Curve(prog, kind, {}, mk=False, extra=ex); it = D.it
    it.vals = None; it.generic = False
    D.fp = ("p", ("F", C(p)), ZERO)
    st = D.S[0]
    for nm, v in (("p", p), ("n", n)): st.heap[D.zp[nm][1]].cells[("z", ZERO)] = (16, C(v))
    pl.setup(D); it.mux_bits = True; it.unroll = 1 << 20; it.maxsteps = 30000000
    D.cv, D.S = D.mkcurve("cv", D.S, bits=C(p.bit_length()))
    return D


def gpoint(D, S, name, fp=None, **kw):
    P, S = D.point(name, S, **kw); pl.register(D, P, name, S, fp)
    return P, S


def genpoint(D, S, fp=None):
    """a point set from the curve's generator coordinates"""
    G, S = D.point("G", S, neutral="blank")
    S = D.dos("mpECP_set_mpz", [G, D.zp["Gx"], D.zp["Gy"], D.cv], S); pl.register(D, G, "G", S, fp)
    return G, S


def mult(prog, kind, fn, nb, opt):
    n = order(nb); p = P521 if "longfield" in opt else 13 if "shortfield" in opt else P127 if nb > 130 else (1 << 61) - 1
    if nb > 521: p = P521
    D = ptcurve(prog, kind, n, p); it = D.it; S = D.S
    if "neutral" in opt: P, S = D.point("P", S, neutral=True)
    else: P, S = gpoint(D, S, "P")
    if "same" in opt: R = P
    else: R, S = D.point("R", S, neutral="blank")
    nfp = ("p", ("F", C(n)), ZERO)
    if fn.endswith("_mpz"):
        for s in S: sc = D.mpz(s, "k")
        f = FE(Poly.var(("red", ("s", "k", 0, "k"), nfp)), ONEP, nfp)
    else:
        sc = D.obj(S[0], "k", kind="malloc"); f = FE(Poly.var(("s", "k", 0, "k")), ONEP, nfp)
        for s in S:
            s.heap[sc[1]] = S[0].heap[sc[1]]; o = s.w(sc[1]); o.cells[("fe", ZERO)] = (16, f); o.cells[C(16)] = (8, nfp); o.res[("fe", ZERO)] = "live"
    na, ne = len(it.aborts), len(it.events)
    out = D.dos(fn, [R, P, sc], S)
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"{fn} ({NM[kind]}, {nb}-bit order) {t}"
    if not out: return D, "bad", f"{fn} never returns"
    t = pl.bsum(f)
    want = PT({"P": FE(Poly({((a, 1),): c for a, c in lin_parts(t)[1].items()}), ONEP, None)}) if "neutral" not in opt else O
    for s in out:
        V = pl.facts(it, pl.pt_read(it, None, R, s), s); W = pl.facts(it, want, s)
        if not pl.congruent(V, W, n):
            return D, "bad", f"{fn} ({NM[kind]}, {nb}-bit order): " + explain(V, W, n)
        cv = pl.pt_curve(it, R, s)
        if cv != D.cv: return D, "bad", f"the result of {fn} is not on the curve of the point"
    return D, "ok", ""


def explain(V, W, n):
    a, b = V.d.get("P"), W.d.get("P"); a = a.n if a else Poly(); b = b.n if b else Poly()
    for m, c in sorted((a - b).d.items(), key=lambda x: (len(x[0]), repr(x[0])))[:1]:
        bits = [v[2][1] for v, e in m if v[0] == "bit"]
        if len(bits) == 1 and len(m) == 1:
            return f"bit {bits[0]} of the scalar contributes {a.d.get(m, 0)} times the point instead of 2^{bits[0]}"
        return f"scalar bits {bits} contribute {a.d.get(m, 0)} instead of {b.d.get(m, 0)}"
    return "wrong multiple"


def rnd(prog, kind):
    fn = "mpECP_urandom"; n = order(9)
    D = ptcurve(prog, kind, n, (1 << 61) - 1); it = D.it; S = D.S
    G, S = genpoint(D, S)
    R, S = D.point("R", S, neutral="blank")
    na, ne = len(it.aborts), len(it.events)
    out = D.dos(fn, [R, D.cv], S)
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"{fn} {t}"
    for s in out:
        V = pl.pt_read(it, None, R, s)
        vs = {b[1] for c in V.d.values() for b in c.n.vars() if b[0] == "bit"}
        if set(V.d) != {"G"} or len(vs) != 1: return D, "bad", f"a random point is {V!r}, not a random multiple of the generator"
        src = vs.pop()
        if pl.single(src[1]) is None or pl.single(src[1])[0] != "rand": return D, "und", "random scalar not recognised"
        if not pl.congruent(V, PT({"G": FE(Poly({((a, 1),): c for a, c in lin_parts(pl.bsum(src[1]))[1].items()}), ONEP, None)}), n):
            return D, "bad", "a random point is not the multiple of the generator by the whole random scalar"
    return D, "ok", ""
