from scen import *
from grouplaw import P_

NM = {"ws": "short Weierstrass", "ed": "Edwards", "te": "twisted Edwards", "mo": "Montgomery"}


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("membership test: 1 at points that satisfy the curve equation identically, 0 at generic and specially shaped points off the curve")
    rep.rule("setters: status 0 exactly when the generator is on the curve; every parameter stored unchanged, derived constants consistent")
    rep.rule("text setters equal integer setters with automatic base; a text that is not a number gives a nonzero status for each argument")
    rep.rule("a curve object that held another curve (any type, another field) is redefined or copied into completely")
    fns = {}
    for kind in KINDS:
        for nm, f in list(ON.items()) + list(OFF.items()):
            obl(rep, f"check:{kind}:{nm}", prog.where("mpECurve_point_check"), fns, member, prog, kind, nm)
        setter = SETTER[kind][0]
        for via in ("mpz", "str"):
            fn = setter.replace("mpz", via)
            for g in ("on", "off"):
                for prev in (None,) + KINDS:
                    obl(rep, f"{fn}:{g}:after-{prev}", prog.where(fn), fns, define, prog, kind, via, g, prev)
        for k in range(7):
            fn = setter.replace("mpz", "str")
            obl(rep, f"{fn}:bad-arg{k + 1}", prog.where(fn), fns, badtext, prog, kind, k)
        for dst in (None,) + KINDS:
            obl(rep, f"mpECurve_set:{kind}:into-{dst}", prog.where("mpECurve_set"), fns, copy, prog, kind, dst)
    rep.cover["functions_interpreted"] = fns


# ------------------------------------------------------------ membership
rq = lambda k, P: (P[0] * 7 + k + 3) % Q
ON = {"generic": lambda k, co, p: p[0], "order2": lambda k, co, p: order2(k, co),
      "neutral": lambda k, co, p: ref_neutral(k, co) or p[1], "negative": lambda k, co, p: ref_neg(k, co, p[0])}
OFF = {"generic": lambda k, co, p: (rq(1, p[0]), rq(2, p[1])), "y-other": lambda k, co, p: (p[0][0], rq(5, p[1])),
       "x-other": lambda k, co, p: (rq(5, p[1]), p[0][1]), "x=0": lambda k, co, p: (0, rq(1, p[0])),
       "y=0": lambda k, co, p: (rq(1, p[0]), 0), "x=y": lambda k, co, p: (rq(1, p[0]),) * 2,
       "x=-y": lambda k, co, p: (rq(1, p[0]), -rq(1, p[0]) % Q), "x=1": lambda k, co, p: (1, rq(1, p[0])),
       "y=1": lambda k, co, p: (rq(3, p[0]), 1), "swapped": lambda k, co, p: (p[0][1], p[0][0]) if k != "ed" else (p[0][1], rq(1, p[0])),
       "y+1": lambda k, co, p: (p[0][0], (p[0][1] + 1) % Q), "2y": lambda k, co, p: (p[0][0], 2 * p[0][1] % Q)}


def member(prog, kind, nm):
    on = nm in ON and True
    both = nm in ON and nm in OFF
    if both:      # 'generic' exists in both tables
        r = member1(prog, kind, ON[nm], True)
        return r if r[1] != "ok" else member1(prog, kind, OFF[nm], False)
    return member1(prog, kind, (ON if on else OFF)[nm], on)


def member1(prog, kind, f, on):
    D = Curve(prog, kind, {}, torsion2=True); it = D.it; S = D.S
    for k, v in enumerate(it.vals.vals):
        co, _ = D.samples[k]
        x, y = f(kind, co, [(v.int(D.zatom("Gx")), v.int(D.zatom("Gy")))] + D.pts[k])
        b = {}; D._setv(b, "X", x); D._setv(b, "Y", y); v.v.update(b)
        if ref_on(kind, co, (x, y)) != on: raise AnalysisBroken("sample shape")
    for s in S: zx = D.mpz(s, "X"); zy = D.mpz(s, "Y")
    na, ne = len(it.aborts), len(it.events)
    res = D.do("mpECurve_point_check", [D.cv, zx, zy], S)
    bad = trouble(D, na, ne)
    if bad: return D, "bad", "the membership test " + bad
    if not res: return D, "bad", "the membership test never returns"
    for v, s in res:
        t = truthy(D.it, s, v)
        if t is None: return D, "und", f"status {v!r} not decided"
        if t != on: return D, "bad", f"a {NM[kind]} point that {'satisfies' if on else 'does not satisfy'} the equation is reported as {'not on' if on else 'on'} the curve"
        for nm in ("X", "Y"):
            if s.heap[("I", nm)].cells[("z", ZERO)][1] != D.zatom(nm): return D, "bad", "the membership test changes the coordinates it is given"
    return D, "ok", ""


# ------------------------------------------------------------ setters
PARAMS = ("p", "1", "2", "n", "h", "Gx", "Gy")


def strmodel(fail=None):
    def m(it, I, a, st):
        if I.x["callee"][1].endswith("init_set_str"):
            models.res_init(it, I, a[0], "z", st); models.zwr(it, I, a[0], ZERO, st)
        if a[1][0] != "p" or not isinstance(a[1][1], tuple) or a[1][1][0] != "I" or not str(a[1][1][1]).startswith("str."):
            return M["__gmpz_set_str"](it, I, a, st)
        nm = a[1][1][1][4:]
        if nm == fail: return C(-1)
        base = num(a[2])
        if base != ZERO:
            models.zwr(it, I, a[0], ("s", f"{nm}.base{base[1] if base[0] == 'c' else '?'}", 0, nm), st); return C(0)
        models.zwr(it, I, a[0], ("s", nm, 0, nm), st); return C(0)
    return {"__gmpz_set_str": m, "__gmpz_init_set_str": m}


def names(kind): return {"p": "p", "1": SETTER[kind][1], "2": SETTER[kind][2], "n": "n", "h": "h", "Gx": "Gx", "Gy": "Gy"}


def strargs(D, S, kind, over=None):
    out = []
    for k in PARAMS:
        nm = (over or {}).get(k) or names(kind)[k]
        p = D.obj(S[0], "str." + nm)
        for s in S[1:]: s.heap[p[1]] = S[0].heap[p[1]]
        out.append(p)
    return out


BITS = ("s", "argbits", 0, "bits")


def define(prog, kind, via, g, prev):
    D = Curve(prog, kind, {}, mk=False, extra=strmodel()); it = D.it; S = D.S
    cv = D.obj(S[0], "cv", kind="malloc")
    S = D.dos("mpECurve_init", [cv], S)
    if prev:     # the object held another curve over another field before
        zs = []
        for nm in ("p9", "c91", "c92", "n9", "h9", "gx9", "gy9"): zs.append(D.mpz(S[0], nm))
        S = D.dos(SETTER[prev][0], [cv] + zs + [C(64)], S)
    if g == "off":
        for v in it.vals.vals: b = {}; D._setv(b, "Gx", (v.int(D.zatom("Gx")) * 3 + 1) % Q); v.v.update(b)
    na, ne = len(it.aborts), len(it.events)
    S[0].rng[BITS] = (0, 4096, frozenset())
    args = [D.zp[k] for k in PARAMS] if via == "mpz" else strargs(D, S, kind)
    fn = SETTER[kind][0].replace("mpz", via)
    res = D.do(fn, [cv] + args + [BITS], S)
    bad = trouble(D, na, ne)
    if bad: return D, "bad", f"{fn} {bad}"
    if not res: return D, "bad", f"{fn} never returns"
    for v, s in res:
        t = truthy(D.it, s, v)
        if t is None: return D, "und", f"status {v!r} not decided"
        if t and g == "on": return D, "bad", f"{fn} refuses a curve whose generator satisfies the equation"
        if not t and g == "off": return D, "bad", f"{fn} accepts a generator that is not on the curve"
        if g == "on":
            st, m = stored(D, s, cv, kind)
            if st != "ok": return D, st, f"{fn}: {m}"
    return D, "ok", ""


def layout(prog, kind):
    o = prog.offsets("_mpECurve_t"); c = prog.offsets(f"_mpECurve_{kind}_curve_coeff_t")
    return {k: v[0] for k, v in o.items()}, {k: v[0] + o["coeff"][0] for k, v in c.items()}


def stored(D, s, cv, kind):
    """every parameter of the scenario's curve is in the object"""
    o, c = layout(D.p, kind); H = s.heap[cv[1]]; base = cv[2]
    g = lambda off, dom=None: (H.cells.get((dom, add(base, C(off))) if dom else add(base, C(off))) or (0, None))[1]
    if g(o["type"]) != C(ENUM[kind]): return "bad", f"the curve type recorded is {g(o['type'])}, not {NM[kind]}"
    if g(o["fp"]) != D.fp: return ("bad", "the field recorded is not the field of the given prime")
    if g(o["bits"]) not in (BITS, ("umod", BITS, C(1 << 32))): return "bad", "the bit size recorded is not the one given"
    for f, off, want in (("n", o["n"], "n"), ("h", o["h"], "h"), ("Gx", o["G"], "Gx"), ("Gy", o["G"] + 16, "Gy")):
        z = g(off, "z")
        if z is None: return "bad", f"{f} is not stored"
        if z != D.zatom(want):
            got = D.evalt(z); exp = [v.int(D.zatom(want)) for v in D.it.vals.vals]
            if got == exp and z[0] in ("int", "umod"): continue
            return ("bad" if clean_term(z) else "und"), f"{f} of the curve object is not the value given"
    for cn in c:
        v = g(c[cn], "fe")
        if v is None: return "und", f"coefficient {cn} has no value"
        exp = []
        for co, _ in D.samples:
            if cn in co: exp.append(co[cn])
            elif kind == "mo":
                A, B = co["A"], co["B"]
                x = {"Binv": inv(B), "Adiv3": A * inv(3) % Q, "ws_a": (3 - A * A) * inv(3 * B * B) % Q,
                     "ws_b": (2 * A ** 3 - 9 * A) * inv(27 * B ** 3) % Q}.get(cn)
                if x is None: return "ok", ""
                exp.append(x)
            else: return "ok", ""
        got = [x.fe(v) for x in D.it.vals.vals]
        if got != exp: return ("bad" if clean_term(v) else "und"), f"coefficient {cn} of the curve object is not the value given or implied"
        fp = g(c[cn] + 16)
        if fp != D.fp: return "bad", f"coefficient {cn} belongs to another field"
    return "ok", ""


def badtext(prog, kind, k):
    nm = names(kind)[PARAMS[k]]
    D = Curve(prog, kind, {}, mk=False, extra=strmodel(nm)); it = D.it; S = D.S
    cv = D.obj(S[0], "cv", kind="malloc"); S = D.dos("mpECurve_init", [cv], S)
    na, ne = len(it.aborts), len(it.events)
    fn = SETTER[kind][0].replace("mpz", "str")
    res = D.do(fn, [cv] + strargs(D, S, kind) + [C(521)], S)
    bad = trouble(D, na, ne)
    if bad: return D, "bad", f"{fn} with a text that is not a number for {nm} {bad}"
    if not res: return D, "bad", f"{fn} with a text that is not a number for {nm} never returns"
    for v, s in res:
        t = truthy(D.it, s, v)
        if t is None: return D, "und", f"status {v!r} not decided"
        if not t: return D, "bad", f"{fn} accepts a text that is not a number for {nm}"
        na = len(it.aborts)
        D.dos("mpECurve_clear", [cv], [s])
        bad = trouble(D, na, ne)
        if bad: return D, "bad", f"after a refused definition, clearing the curve {bad}"
    return D, "ok", ""


# ------------------------------------------------------------ copies
def copy(prog, kind, dst):
    D = Curve(prog, kind, {}, mk=False); it = D.it; S = D.S
    cv = D.obj(S[0], "cv", kind="malloc"); S = D.dos("mpECurve_init", [cv], S)
    S = [s for v, s in D.do(SETTER[kind][0], [cv] + [D.zp[k] for k in PARAMS] + [BITS], S)]
    r = D.obj(S[0], "rop", kind="malloc")
    for s in S[1:]: s.heap[r[1]] = S[0].heap[r[1]]
    S = D.dos("mpECurve_init", [r], S)
    if dst:
        zs = []
        for nm in ("p9", "c91", "c92", "n9", "h9", "gx9", "gy9"):
            z = D.mpz(S[0], nm); zs.append(z)
            for s in S[1:]: s.heap[z[1]] = S[0].heap[z[1]]
        S = D.dos(SETTER[dst][0], [r] + zs + [C(64)], S)
    na, ne = len(it.aborts), len(it.events)
    R = D.dos("mpECurve_set", [r, cv], S)
    bad = trouble(D, na, ne)
    if bad: return D, "bad", f"mpECurve_set {bad}"
    if not R: return D, "bad", "mpECurve_set never returns"
    for s in R:
        for obj, what in ((cv, "the source is changed: "), (r, "the copy is incomplete: ")):
            st, m = stored(D, s, obj, kind)
            if st != "ok": return D, st, what + m
    return D, "ok", ""
