from scen import *
from grouplaw import P_, mk_tors


def ws_x0(co, pts, rnd):
    """make the sampled curve one with a point at x = 0"""
    y0 = rnd.randrange(1, Q); co["b"] = y0 * y0 % Q; co.pop("e", None); out = [(0, y0)]
    while len(out) < 5:
        x = rnd.randrange(2, Q); r = (x ** 3 + co["a"] * x + co["b"]) % Q
        if pow(r, (Q - 1) // 2, Q) == 1: out.append((x, pow(r, (Q + 1) // 4, Q)))
    pts[:] = out


# shape -> (point builder, curve sampling options)
SHAPES = {"generic": (lambda k, co, p: p[0], {}), "order2": (lambda k, co, p: order2(k, co), {"torsion2": True}),
          "x0": (lambda k, co, p: p[0] if k == "ws" else ref_neutral(k, co) if k in ("ed", "te") else order2(k, co), {})}
SHAPE_OPT = {("ws", "x0"): {"special": ws_x0}, ("ws", "order2"): {"torsion2": True}}


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("for every curve type and representation: accessor(setter(x, y)) = (x, y) as rational functions; reading, comparing "
             "and exporting leave the point's affine coordinates unchanged; reading a neutral element does not abort")
    fns = {}
    for kind in KINDS:
        for setter in ("mpECP_set_mpz", "mpECP_set_mpFp"):
            for scaled in (False, True):
                for acc in ("mpz", "mpFp"):
                    for order in ("xy", "yx", "xx", "yy"):
                        key = f"{setter}:{kind}:{'scaled' if scaled else 'affine'}:{acc}:{order}"
                        obl(rep, key, prog.where(f"{acc}_set_mpECP_affine_{order[0]}"), fns, wrap, one, prog, kind, setter, scaled, acc, order)
            for shape in ("generic", "order2", "x0"):
                for prev in (None, "scaled", "neutral"):
                    for acc in ("mpz", "mpFp"):
                        if shape == "generic" and prev is None: continue
                        key = f"{setter}:{kind}:{shape}:{acc}:over-{prev}"
                        obl(rep, key, prog.where(f"{acc}_set_mpECP_affine_x" if prev is None else setter), fns, wrap, one, prog, kind, setter, prev is None, acc, "xy", shape, prev)
        for obs in ("cmp", "cmp2", "bytes0", "bytes1", "affine", "set", "neg", "double"):
            key = f"unchanged-by-{obs}:{kind}"
            obl(rep, key, prog.where("mpECP_cmp"), fns, wrap, unchanged, prog, kind, obs)
        for f in ("x", "y"):
            D = Curve(prog, kind, {}); P, S = D.point("P1", D.S, neutral=True); z = D.mpz(S[0], "o", ZERO)
            try:
                R = D.dos(f"mpz_set_mpECP_affine_{f}", [z, P], S)
                ok = R and not D.it.aborts
                rep.add(f"neutral-{f}:{kind}", "ok" if ok else "bad", "reading a coordinate of the neutral element aborts", prog.where(f"mpz_set_mpECP_affine_{f}"))
            except AnalysisBroken as e: rep.und(f"neutral-{f}:{kind}", str(e))
    rep.cover["functions_interpreted"] = fns


class _D:
    def __init__(self, a): self.it = self; self.analysed = a


def wrap(f, *a):
    fns = {}
    if f is one and len(a) > 6: r = f(*a[:6], fns, *a[6:])
    else: r = f(*a, fns)
    return (_D(fns),) + tuple(r)


def fe_obj(D, S, name):
    p = D.obj(S[0], name, 24, kind="malloc")
    for s in S[1:]: s.heap[p[1]] = S[0].heap[p[1]]
    return p, S


def one(prog, kind, setter, scaled, acc, order, fns=None, shape="generic", prev=None):
    """prev: what the point object held before it was set"""
    try:
        D = Curve(prog, kind, {"P1": SHAPES[shape][0], "P0": P_(1)}, **SHAPE_OPT.get((kind, shape), {})); it = D.it; S = D.S
        ne = len(it.events)
        if prev == "scaled": P, S = D.point("P0", S, scale="l0")
        elif prev: P, S = D.point("P0", S, neutral=True)
        else: P, S = D.point("P0", S, neutral="blank")
        for s in S: D.mpz(s, "P1.x"); D.mpz(s, "P1.y")
        if setter == "mpECP_set_mpz":
            S = D.dos(setter, [P, ("p", ("I", "P1.x"), ZERO), ("p", ("I", "P1.y"), ZERO), D.cv], S)
            if scaled: D.scale(P, S, "l1")
        else:
            fs = []
            for c in "xy":
                f, S = fe_obj(D, S, "f" + c)
                S = D.dos("mpFp_init_fp", [f, D.fp], S)
                S = D.dos("mpFp_set_mpz_fp", [f, ("p", ("I", "P1." + c), ZERO), D.fp], S); fs.append(f)
            S = D.dos("mpECP_set_mpFp", [P, fs[0], fs[1], D.cv], S)
            if scaled: D.scale(P, S, "l1")
        outs = []
        for k, c in enumerate(order):
            if acc == "mpz": o = D.mpz(S[0], f"o{k}", ZERO); [s.heap.__setitem__(o[1], S[0].heap[o[1]]) for s in S[1:]]
            else:
                o, S = fe_obj(D, S, f"o{k}"); S = D.dos("mpFp_init_fp", [o, D.fp], S)
            S = D.dos(f"{acc}_set_mpECP_affine_{c}", [o, P], S); outs.append((c, o))
        for k, v in it.analysed.items(): fns[k] = fns.get(k, 0) + v
        if it.aborts or not S: return "bad", "the accessor aborts"
        for e in it.live_events():
            if e["kind"] in ("uninit-read", "use-after-clear", "field-mismatch", "uninit-branch") and e not in it.events[:ne]:
                return "bad", f"{e['msg']} ({e['file']}:{e['line']})"
        for s in S:
            for c, o in outs:
                cell = s.heap[o[1]].cells.get(("z" if acc == "mpz" else "fe", ZERO))
                if cell is None: return "bad", f"coordinate {c} is never stored"
                v = cell[1]
                got = [x.fe(v) if isinstance(v, FE) else x.int(v) for x in it.vals.vals]
                exp = [aff["P1"]["xy".index(c)] for co, aff in D.samples]
                if got != exp:
                    return ("bad" if clean_term(v) else "und"), f"{kind} curve: the {c} coordinate read back is not the one that was set"
        return "ok", ""
    except AnalysisBroken as e:
        if "not found" in str(e): raise
        return "und", str(e)


def unchanged(prog, kind, obs, fns):
    try:
        D = Curve(prog, kind, {"P1": P_(0), "P2": P_(1)}); it = D.it; S = D.S
        P, S = D.point("P1", S, scale="l1"); P2, S = D.point("P2", S, scale="l2")
        if obs == "cmp": S = D.dos("mpECP_cmp", [P, P2], S)
        elif obs == "cmp2": S = D.dos("mpECP_cmp", [P2, P], S)
        elif obs in ("neg", "double", "set"): S = D.dos("mpECP_" + obs, [P2, P], S)
        elif obs == "affine": S = [r for _, r, _ in D.affine(P, S)]
        else:
            b = D.obj(S[0], "buf", 4096, kind="malloc")
            for s in S[1:]: s.heap[b[1]] = S[0].heap[b[1]]
            it.unroll = 0
            S = D.dos("mpECP_out_bytes", [b, P, C(int(obs[-1]))], S)
        for k, v in it.analysed.items(): fns[k] = fns.get(k, 0) + v
        if not S: return "bad", "no path returns"
        it.aborts.clear()
        for s0, r, (x, y) in D.affine(P, S):
            if D.evalt(x) != [a["P1"][0] for c, a in D.samples] or D.evalt(y) != [a["P1"][1] for c, a in D.samples]:
                return ("bad" if clean_term(x) and clean_term(y) else "und"), f"{obs} changes the point it reads"
        return "ok", ""
    except AnalysisBroken as e:
        if "not found" in str(e): raise
        return "und", str(e)
