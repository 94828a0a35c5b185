from scen import *
from grouplaw import P_

NM = {"ws": "short Weierstrass", "ed": "Edwards", "te": "twisted Edwards", "mo": "Montgomery"}
PAR = ("p", "1", "2", "n", "h", "Gx", "Gy")
# how the one differing parameter differs
DIFFS = {"symbolic": None, "low": (5, 6), "limb2": (5, 5 + (1 << 64)), "high": (5 + (1 << 130), 5 + (1 << 131)), "wide": (7, 7 + (1 << 300))}


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("mpECurve_cmp: nonzero for curves that differ in exactly one parameter (each parameter, several ways to differ), zero for equal curves, both argument orders, no abort")
    rep.rule("mpECP_cmp: zero exactly for the same group element on equal curves, for every scaling; nonzero across curves")
    rep.rule("mpECP_add, sub, swap, cswap of points on different curves never return")
    fns = {}
    for kind in KINDS:
        obl(rep, f"mpECurve_cmp:{kind}:equal", prog.where("mpECurve_cmp"), fns, cvcmp, prog, kind, None, None)
        obl(rep, f"mpECurve_cmp:{kind}:same-object", prog.where("mpECurve_cmp"), fns, cvcmp, prog, kind, "same", None)
        for par in PAR:
            for df in DIFFS:
                if par == "p" and df != "symbolic": continue
                obl(rep, f"mpECurve_cmp:{kind}:differ-{par}:{df}", prog.where("mpECurve_cmp"), fns, cvcmp, prog, kind, par, df)
        for k2 in KINDS:
            if k2 != kind: obl(rep, f"mpECurve_cmp:{kind}:type-{k2}", prog.where("mpECurve_cmp"), fns, cvcmp, prog, kind, "type", k2)
        for c in PAIRS:
            for eqobj in (False, True):
                obl(rep, f"mpECP_cmp:{kind}:{c}:{'two-curve-objects' if eqobj else 'one-curve-object'}", prog.where("mpECP_cmp"), fns, ptcmp, prog, kind, c, eqobj)
        for par in PAR:
            for fn in ("mpECP_cmp", "mpECP_add", "mpECP_sub", "mpECP_swap", "mpECP_cswap"):
                for neu in ("", "N1", "N2", "N1N2"):
                    if neu and (fn not in ("mpECP_cmp", "mpECP_add", "mpECP_sub") or par not in ("p", "1", "n")): continue
                    obl(rep, f"{fn}:{kind}:across-{par}:{neu or 'finite'}", prog.where(fn), fns, across, prog, kind, par, fn, neu)
    rep.cover["functions_interpreted"] = fns


def second(D, S, kind, par, df, tkind=None):
    """two curve objects made by the library; the second differs in parameter `par`"""
    nm = {"p": "p", "1": SETTER[kind][1], "2": SETTER[kind][2], "n": "n", "h": "h", "Gx": "Gx", "Gy": "Gy"}
    out = []
    for w in (0, 1):
        z = dict(D.zp)
        if par in PAR:
            if df == "symbolic" or df is None:
                if w: z[par] = D.mpz(S[0], nm[par] + "'")
            else: z[par] = D.mpz(S[0], f"{nm[par]}.{w}", C(DIFFS[df][w]))
            for s in S[1:]: s.heap[z[par][1]] = S[0].heap[z[par][1]]
        c = D.obj(S[0], f"cv{w}", kind="malloc")
        for s in S[1:]: s.heap[c[1]] = S[0].heap[c[1]]
        S = D.dos("mpECurve_init", [c], S)
        S = D.dos(SETTER[tkind if (w and tkind) else kind][0], [c] + [z[k] for k in PAR] + [C(521)], S)
        out.append(c)
    if par in PAR and df in ("symbolic", None):
        for s in S: s.assume0("ne", sub(D.zatom(nm[par]), D.zatom(nm[par] + "'")))
    return out[0], out[1], S


def cvcmp(prog, kind, par, df):
    D = Curve(prog, kind, {}, mk=False); it = D.it; S = D.S
    c0, c1, S = second(D, S, kind, None if par in (None, "same", "type") else par, df if par in PAR else None, df if par == "type" else None)
    if par == "same": c1 = c0
    want = par not in (None, "same")
    for a, b in ((c0, c1), (c1, c0)):
        na, ne = len(it.aborts), len(it.events)
        R = D.do("mpECurve_cmp", [a, b], [s.copy() for s in S])
        t = trouble(D, na, ne)
        if t: return D, "bad", "comparing curves " + t
        if not R: return D, "bad", "comparing curves never returns"
        for v, s in R:
            g = truthy(it, s, v)
            if g is None: return D, "und", f"result {v!r} not decided"
            if g != want:
                return D, "bad", (f"{NM[kind]} curves that differ in {par} ({df}) compare equal" if want else "equal curves compare different")
    return D, "ok", ""


NEG = lambda k, co, p: ref_neg(k, co, p[0])
PAIRS = {  # (builder 1 | 'N', builder 2 | 'N', equal?)
    "same": (P_(0), P_(0), True), "other": (P_(0), P_(1), False), "negative": (P_(0), NEG, False),
    "neutral-neutral": ("N", "N", True), "neutral-finite": ("N", P_(1), False), "finite-neutral": (P_(0), "N", False),
    "order2-same": (lambda k, co, p: order2(k, co), lambda k, co, p: order2(k, co), True),
    "order2-other": (lambda k, co, p: order2(k, co), P_(0), False),
    "order2-neutral": (lambda k, co, p: order2(k, co), "N", False),
    "x0-negative": ("x0", "-x0", False), "x0-same": ("x0", "x0", True),
}


def ptcmp(prog, kind, case, eqobj):
    from p03_coordinates import ws_x0
    b1, b2, want = PAIRS[case]
    opt = {}
    if "x0" in case:
        if kind == "mo": return None, "ok", "no point with x = 0 but the one of order two"
        if kind in ("ed", "te"):
            b1 = lambda k, co, p: ref_neutral(k, co); b2 = (lambda k, co, p: order2(k, co)) if not want else b1
        else:
            opt["special"] = ws_x0; b1 = P_(0); b2 = NEG if not want else P_(0)
    if kind == "ws" and "order2" in case: opt["torsion2"] = True
    pts = {}
    if b1 != "N": pts["P1"] = b1
    if b2 != "N": pts["P2"] = b2
    D = Curve(prog, kind, pts, **opt); it = D.it; S = D.S
    cv2 = D.cv
    if eqobj: cv2, S = D.mkcurve("cvB", S)
    edl = kind in ("ed", "te")
    P1, S = D.point("P1", S, neutral=b1 == "N", scale="l1" if b1 != "N" or edl else None)
    P2, S = D.point("P2", S, neutral=b2 == "N", scale="l2" if b2 != "N" or edl else None, cv=cv2)
    for a, b in ((P1, P2), (P2, P1)):
        na, ne = len(it.aborts), len(it.events)
        R = D.do("mpECP_cmp", [a, b], [s.copy() for s in S])
        t = trouble(D, na, ne)
        if t: return D, "bad", "comparing points " + t
        if not R: return D, "bad", "comparing points never returns"
        for v, s in R:
            g = truthy(it, s, v)
            if g is None: return D, "und", f"result {v!r} not decided"
            if g == want: return D, "bad", f"{NM[kind]} points ({case}) compare {'different' if want else 'equal'}"
    return D, "ok", ""


def across(prog, kind, par, fn, neu=""):
    D = Curve(prog, kind, {"P1": P_(0), "P2": P_(1)}, mk=False); it = D.it; S = D.S
    c0, c1, S = second(D, S, kind, par, "symbolic")
    D.cv = c0
    P1, S = D.point("P1", S, neutral="N1" in neu, cv=c0); P2, S = D.point("P2", S, neutral="N2" in neu, cv=c1); R, S = D.point("R", S, neutral="blank", cv=c0)
    for a, b in ((P1, P2), (P2, P1)):
        na, ne = len(it.aborts), len(it.events)
        args = {"mpECP_cmp": [a, b], "mpECP_add": [R, a, b], "mpECP_sub": [R, a, b], "mpECP_swap": [a, b], "mpECP_cswap": [a, b, ("s", "swapflag", 0, "swap")]}[fn]
        out = D.do(fn, args, [s.copy() for s in S])
        if fn != "mpECP_cmp":
            if out: return D, "bad", f"{fn} combines points of different curves (differing in {par}) and returns"
            continue
        t = trouble(D, na, ne)
        if t: return D, "bad", "comparing points of different curves " + t
        for v, s in out:
            g = truthy(it, s, v)
            if g is None: return D, "und", f"result {v!r} not decided"
            if not g: return D, "bad", f"points of curves that differ in {par} compare equal"
    return D, "ok", ""
