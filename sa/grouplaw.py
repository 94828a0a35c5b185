"""Scenarios of the point arithmetic, evaluated in the rational-function domain."""
from scen import *

P_ = lambda i: (lambda kind, co, pts: pts[i])


def mk_double(kind, co, pts): return pts[0]
def mk_neg(kind, co, pts): return ref_neg(kind, co, pts[0])
def mk_tors(kind, co, pts): return order2(kind, co)
def mk_plus_t(kind, co, pts): return ref_add(kind, co, pts[0], order2(kind, co))
def mk_neutral_aff(kind, co, pts): return ref_neutral(kind, co)


# name -> (P1 builder or 'N', P2 builder or 'N')
BIN = {
    "generic": (P_(0), P_(1)),
    "equal": (P_(0), mk_double),
    "inverse": (P_(0), mk_neg),
    "neutral-left": ("N", P_(1)),
    "neutral-right": (P_(0), "N"),
    "neutral-both": ("N", "N"),
    "order2-difference": (P_(0), mk_plus_t),
    "order2-left": (mk_tors, P_(1)),
    "order2-equal": (mk_tors, mk_tors),
}
UN = {"generic": P_(0), "neutral": "N", "order2": mk_tors}
ALIAS = ("none", "pt1", "pt2")


class Outcome:
    def __init__(s, **k): s.__dict__.update(k)


def same(it, f, vals):
    return f == vals


def observe(D, R, N, S, kind):
    """[(state, None | (x,y) sample values, description)] of point R in states S"""
    out = []
    for s in S:
        rs = D.do("mpECP_cmp", [R, N], [s.copy()])
        verdict = {(v == ZERO) if v[0] == "c" else (False if s2.cmp0("eq", v) is False else None) for v, s2 in rs}
        aff = []
        if verdict == {False} or kind in ("ed", "te"):
            for s0, r, (x, y) in D.affine(R, [s]):
                aff.append((D.evalt(x), D.evalt(y), clean_term(x) and clean_term(y)))
        out.append((s, verdict, aff))
    return out


def judge(D, kind, R, N, S, exp, nab, nev, what):
    """compare the point R in all states with the expected affine point per sample (None: neutral).
    -> (status, message)"""
    it = D.it
    ab = it.aborts[nab:]
    if ab:
        f, l = it.p.loc(ab[0][0])
        return "bad", f"{what} reaches an assertion failure at {rel(f)}:{l}"
    ev = [e for e in it.events[nev:] if e["kind"] in ("uninit-read", "use-after-clear", "use-after-free", "field-mismatch", "null-deref", "uninit-branch")]
    if ev:
        e = ev[0]; return "bad", f"{what}: {e['msg']} ({e['file']}:{e['line']})"
    if not S: return "bad", f"{what} never returns"
    na2 = len(it.aborts)
    for s, verdict, aff in observe(D, R, N, S, kind):
        if len(it.aborts) > na2: return "und", "observer aborted"
        neutral = ref_neutral(kind, D.samples[0][0])
        if kind in ("ws", "mo"):
            if exp[0] is None:
                if None in verdict: return "und", "neutrality of the result not decided"
                if verdict != {True}: return "bad", f"{what} does not give the neutral element"
                continue
            if None in verdict: return "und", "neutrality of the result not decided"
            if True in verdict: return "bad", f"{what} gives the neutral element instead of a finite point"
        for xs, ys, clean in aff:
            ex = [e[0] for e in exp]; ey = [e[1] for e in exp]
            if xs != ex or ys != ey:
                if not clean: return "und", "result contains a value outside the domain"
                bad = "x" if xs != ex else "y"
                return "bad", f"{what} gives a wrong {bad} coordinate"
        if not aff: return "und", "no affine value"
    return "ok", ""


def run_binary(prog, op, kind, sc, alias, swap_scale=False, before=None):
    f1, f2 = BIN[sc]
    pts = {}
    if f1 != "N": pts["P1"] = f1
    if f2 != "N": pts["P2"] = f2
    D = Curve(prog, kind, pts, torsion2=(kind == "ws" and "order2" in sc))
    D.WEIGHTS = (1, 1, 1)
    it = D.it; S = D.S
    P1, S = D.point("P1", S, neutral=f1 == "N", scale=None if f1 == "N" and kind in ("ws", "mo") else "l1")
    if alias == "both":
        P2 = P1
    else:
        P2, S = D.point("P2", S, neutral=f2 == "N", scale=None if f2 == "N" and kind in ("ws", "mo") else "l2")
    if alias == "pt1": R = P1
    elif alias == "pt2": R = P2
    elif alias == "both": R = P1
    else: R, S = D.point("R", S, neutral="blank")
    N, S = D.point("N", S, neutral=True)
    nab, nev = len(it.aborts), len(it.events)
    S0 = [s.copy() for s in S]
    S = D.dos(op, [R, P1, P2], S)
    exp = []
    for co, aff in D.samples:
        a = aff.get("P1", ref_neutral(kind, co)); b = aff.get("P2", ref_neutral(kind, co))
        if alias == "both": b = a
        if op == "mpECP_sub": b = ref_neg(kind, co, b)
        exp.append(ref_add(kind, co, a, b))
    return D, R, P1, P2, N, S0, S, exp, nab, nev


def run_unary(prog, op, kind, sc, alias):
    f = UN[sc]
    D = Curve(prog, kind, {} if f == "N" else {"P1": f}, torsion2=(kind == "ws" and sc == "order2"))
    it = D.it; S = D.S
    P1, S = D.point("P1", S, neutral=f == "N", scale=None if f == "N" and kind in ("ws", "mo") else "l1")
    if alias == "pt1": R = P1
    else: R, S = D.point("R", S, neutral="blank")
    N, S = D.point("N", S, neutral=True)
    nab, nev = len(it.aborts), len(it.events)
    S0 = [s.copy() for s in S]
    S = D.dos(op, [R, P1], S)
    exp = []
    for co, aff in D.samples:
        a = aff.get("P1", ref_neutral(kind, co))
        exp.append(ref_neg(kind, co, a) if op == "mpECP_neg" else ref_add(kind, co, a, a))
    return D, R, P1, None, N, S0, S, exp, nab, nev


def scenarios():
    for kind in KINDS:
        for op in ("mpECP_add", "mpECP_sub"):
            for sc in BIN:
                for al in ALIAS: yield op, kind, sc, al
            yield op, kind, "equal", "both"
        for op in ("mpECP_double", "mpECP_neg"):
            for sc in UN:
                for al in ("none", "pt1"): yield op, kind, sc, al


def run(prog, op, kind, sc, al):
    return (run_binary if op in ("mpECP_add", "mpECP_sub") else run_unary)(prog, op, kind, sc, al)
