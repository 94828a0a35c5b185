from scen import *
from grouplaw import P_
from p03_coordinates import fe_obj
from p06_equality import second

OPS = ("add", "sub", "neg", "double", "set", "cmp", "affine_x", "affine_y", "fpaffine_x", "bytes0", "bytes1", "swap", "cswap0", "cswap1", "set_mpz", "set_mpFp", "set_neutral", "check", "urandom")
FN = {"add": "mpECP_add", "sub": "mpECP_sub", "neg": "mpECP_neg", "double": "mpECP_double", "set": "mpECP_set", "cmp": "mpECP_cmp", "affine_x": "mpz_set_mpECP_affine_x", "affine_y": "mpz_set_mpECP_affine_y",
      "fpaffine_x": "mpFp_set_mpECP_affine_x", "bytes0": "mpECP_out_bytes", "bytes1": "mpECP_out_bytes", "swap": "mpECP_swap", "cswap0": "mpECP_cswap", "cswap1": "mpECP_cswap",
      "set_mpz": "mpECP_set_mpz", "set_mpFp": "mpECP_set_mpFp", "set_neutral": "mpECP_set_neutral", "check": "mpECurve_point_check", "urandom": "mpECP_urandom"}
SC = {"mul": "mpECP_scalar_mul", "mul-mpz": "mpECP_scalar_mul_mpz", "base": "mpECP_scalar_base_mul", "setup": "mpECP_scalar_base_mul_setup"}
OTHER = {"ws": "te", "ed": "ws", "te": "mo", "mo": "ws"}
SHAPES = {"add": ("finite", "equal", "opposite", "N1", "N2", "N1N2"), "sub": ("finite", "equal", "N1", "N2", "N1N2"), "neg": ("finite", "N1"), "double": ("finite", "N1"), "set": ("finite", "N1"),
          "cmp": ("finite", "equal", "N1", "N2"), "swap": ("finite", "N2"), "cswap0": ("finite",), "cswap1": ("finite", "N1")}


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("operands on two separate equal curve objects, result object left over from a curve of another type: every cell of every curve object is unchanged, "
             "the operands denote the same points on the same curve objects")
    rep.rule("the result refers to the curve object of the first operand; no cell of it (or of a table it holds) points into the other operand, its curve object, a local variable or released memory")
    rep.rule("defining, copying and comparing curves leaves the source objects unchanged and shares no storage with them that a later call could change")
    fns = {}
    for kind in KINDS:
        for op in OPS:
            for shape in SHAPES.get(op, ("finite",)):
                for res in (("other", "same1") if op in ("add", "sub", "neg", "double", "set") else ("other",)):
                    obl(rep, f"{FN[op]}:{kind}:{op}:{shape}:{res}", prog.where(FN[op]), fns, one, prog, kind, op, shape, res)
        obl(rep, f"tables-after-swap:{kind}", prog.where("mpECP_swap"), fns, swaptab, prog, kind)
        for op in ("set", "cmp", "setter"):
            obl(rep, f"curve-{op}:{kind}", prog.where("mpECurve_" + ("set" if op == "set" else "cmp" if op == "cmp" else SETTER[kind][0][9:])), fns, curves, prog, kind, op)
        for pt in ("mul", "mul-mpz", "base", "setup"):
            obl(rep, f"scalar:{kind}:{pt}", prog.where(SC[pt]), fns, scalar, prog, kind, pt)
    rep.cover["functions_interpreted"] = fns


def cells(s, oid): return dict(s.heap[oid].cells), s.heap[oid].freed


def changed(prog, before, s, oid, st="_mpECurve_t"):
    """name of a cell of the object that has another value now"""
    b, fr = before; o = s.heap[oid]
    if o.freed and not fr: return "the whole object is released"
    for k, v in b.items():
        w = o.cells.get(k)
        if w is None:
            off = k[1] if k[0] in ("fe", "z") else k
            return f"{fieldname(prog, st, off)} is overwritten"
        if w[1] != v[1]:
            off = k[1] if k[0] in ("fe", "z") else k
            return f"{fieldname(prog, st, off)} changes"
    return None


def fieldname(prog, st, off):
    if off[0] != "c": return "a cell"
    for n, (o, sz) in prog.offsets(st).items():
        if o <= off[1] < o + max(sz, 1): return n
    return f"offset {off[1]}"


def pointers(s, oid, seen=None):
    """objects reachable through pointer cells of the object"""
    seen = seen if seen is not None else set(); out = []
    for k, (sz, v) in s.heap[oid].cells.items():
        if k[0] in ("fe", "z", "d") or not isinstance(v, tuple) or not v or v[0] != "p": continue
        if v[1] in seen: continue
        out.append((k, v[1]))
        if (v[1][0] == "M" or v[1] == ("I", "table")) and v[1] in s.heap:
            seen.add(v[1]); out += pointers(s, v[1], seen)
    return out


def dangling(s, oid, forbidden):
    for k, t in pointers(s, oid):
        if t in forbidden: return forbidden[t]
        if t[0] == "A": return "a local variable"
        if t in s.heap and s.heap[t].freed: return "released memory"
    return None


def value(D, p, s):
    """affine values at the samples, 'N' or None"""
    na = len(D.it.aborts)
    b = s.get(p[1], C(D.off["is_neutral"]))
    if D.kind in ("ws", "mo") and b is not None and b[0] == "c" and b[1]: return "N"
    r = [(D.evalt(x), D.evalt(y)) for _, _, (x, y) in D.affine(p, [s])]
    del D.it.aborts[na:]
    return r[0] if len(r) == 1 else None


def one(prog, kind, op, shape, res):
    p2 = {"equal": P_(0), "opposite": lambda k, co, p: ref_neg(k, co, p[0])}.get(shape, P_(1))
    D = Curve(prog, kind, {"P1": P_(0), "P2": p2}, mk=False); it = D.it; S = D.S
    it.unroll = 0
    c1, S = D.mkcurve("cv1", S); c2, S = D.mkcurve("cv2", S)
    # result objects start on an unrelated curve of another type (its coefficients are free unknowns)
    ok = OTHER[kind]; z = {}
    for k in ("1", "2", "n", "h", "Gx", "Gy"):
        z[k] = D.mpz(S[0], "o" + k); [s.heap.__setitem__(z[k][1], S[0].heap[z[k][1]]) for s in S]
    zp = D.mpz(S[0], "op"); [s.heap.__setitem__(zp[1], S[0].heap[zp[1]]) for s in S]
    gen = it.generic; vv = it.vals
    c3 = D.obj(S[0], "cv3", kind="malloc"); [s.heap.__setitem__(c3[1], S[0].heap[c3[1]]) for s in S]
    S = D.dos("mpECurve_init", [c3], S)
    R_ = D.do(SETTER[ok][0], [c3, zp, z["1"], z["2"], z["n"], z["h"], z["Gx"], z["Gy"], C(300)], S)
    if any(v == ZERO for v, s in R_): S = [s for v, s in R_ if v == ZERO]
    else: S = [s for v, s in R_]
    it.aborts.clear()
    P1, S = D.point("P1", S, cv=c1, neutral="N1" in shape, scale="l1" if "N1" not in shape else None)
    P2, S = D.point("P2", S, cv=c2, neutral=shape in ("N2", "N1N2"), scale="l2" if shape not in ("N2", "N1N2") else None)
    R, S = D.point("R", S, cv=c3, neutral="blank")
    if res == "same1": R = P1
    out_pts = {"R": R}; ins = {"P1": P1, "P2": P2}; first = c1; zin = []
    if op in ("add", "sub"): args = [R, P1, P2]
    elif op in ("neg", "double", "set"): args = [R, P1]; ins = {"P1": P1}
    elif op == "cmp": args = [P1, P2]; out_pts = {}
    elif op.startswith("affine"):
        o = D.mpz(S[0], "outz", ZERO); [s.heap.__setitem__(o[1], S[0].heap[o[1]]) for s in S]; args = [o, P1]; out_pts = {}
    elif op.startswith("fpaffine"):
        o, S = fe_obj(D, S, "outf"); S = D.dos("mpFp_init_fp", [o, D.fp], S); args = [o, P1]; out_pts = {}
    elif op[:-1] in ("bytes", "str"):
        b = D.obj(S[0], "buf", 4096, kind="malloc"); [s.heap.__setitem__(b[1], S[0].heap[b[1]]) for s in S]; args = [b, P1, C(int(op[-1]))]; out_pts = {}
    elif op == "swap": args = [P1, P2]; out_pts = {}; ins = {}
    elif op.startswith("cswap"): args = [P1, P2, C(int(op[-1]))]; out_pts = {}; ins = {}
    elif op == "set_mpz":
        zin = [("p", ("I", "P1.x"), ZERO), ("p", ("I", "P1.y"), ZERO)]; args = [R] + zin + [c1]
    elif op == "set_mpFp":
        fs = []
        for c in "xy":
            f, S = fe_obj(D, S, "f" + c); S = D.dos("mpFp_init_fp", [f, D.fp], S)
            S = D.dos("mpFp_set_mpz_fp", [f, ("p", ("I", "P1." + c), ZERO), D.fp], S); fs.append(f)
        zin = fs; args = [R] + fs + [c1]
    elif op == "set_neutral": args = [R, c1]
    elif op == "check": args = []; out_pts = {}
    elif op == "urandom":
        args = [R, c1]; ins = {}
    fn = FN[op]
    if op == "check":
        f = prog.funcs.get(fn)
        if f is None: raise AnalysisBroken(f"function {fn} not found in the analysed sources")
        zin = [("p", ("I", "P1.x"), ZERO), ("p", ("I", "P1.y"), ZERO)]; args = [c1] + zin
    if op == "urandom":
        # the group law is left to P01: only which objects are written matters here
        it.models["mpECP_add"] = it.models["mpECP_double"] = it.models["mpECP_sub"] = summary(D)
        it.unroll = 0
        if op == "urandom": it.vals = None
    curves_ = {"cv1": c1, "cv2": c2, "cv3": c3}
    na, ne = len(it.aborts), len(it.events)
    pre = []
    for s in S:
        pre.append(({n: cells(s, c[1]) for n, c in curves_.items()}, {n: (value(D, p, s.copy()), s.get(p[1], C(D.off["cvp"]))) for n, p in ins.items() if p != R}, {z[1]: dict(s.heap[z[1]].cells) for z in zin}))
    opaque = op[:-1] in ("bytes", "str")
    for s0, (cb, pb, zb) in zip(S, pre):
        out = D.dos(fn, args, [s0])
        t = trouble(D, na, ne, ok_abort=opaque or op == "urandom", kinds=() if opaque else EVENTS)
        if t and not (op == "urandom"): return D, "bad", f"{fn} {t}"
        if not out: return D, ("und" if opaque or op == "urandom" else "bad"), f"{fn} never returns"
        for s in out:
            for n, c in curves_.items():
                w = changed(prog, cb[n], s, c[1])
                if w: return D, "bad", f"{fn} writes to {'the curve object of an operand' if n != 'cv3' else 'the curve object the result had before'}: {w}"
            for n, (v, cv) in pb.items():
                if s.get(ins[n][1], C(D.off["cvp"])) != cv: return D, "bad", f"{fn} moves its input {n} to another curve object"
                w = value(D, ins[n], s.copy())
                if v is not None and w is not None and w != v: return D, "bad", f"{fn} changes the value of its input {n}"
            for o, b in zb.items():
                for k, v in b.items():
                    x = s.heap[o].cells.get(k)
                    if k[0] in ("z", "fe") and (x is None or x[1] != v[1]): return D, "bad", f"{fn} changes a coordinate argument"
            for n, p in out_pts.items():
                cv = s.get(p[1], C(D.off["cvp"]))
                if cv != first: return D, "bad", f"the result of {fn} does not refer to the curve object of its first operand"
                forb = {c2[1]: "the curve object of the other operand", c3[1]: "the curve object the result had before", P2[1]: "the other operand"}
                if p != P1: forb[P1[1]] = "an operand"
                w = dangling(s, p[1], forb)
                if w: return D, "bad", f"the result of {fn} points into {w}"
            if op == "swap" or op.startswith("cswap"):
                if s.get(P1[1], C(D.off["cvp"])) not in (c1, c2) or s.get(P2[1], C(D.off["cvp"])) not in (c1, c2): return D, "bad", f"{fn} leaves a point on neither curve object"
    return D, "ok", ""


def summary(D):
    """only the effect on objects: result gets fresh coordinates on the first operand's curve"""
    def f(it, I, a, st):
        cv = st.get(a[1][1], add(a[1][2], C(D.off["cvp"]))) if a[1][0] == "p" else None
        if cv is None: return None
        for c in "xyz": fewr(it, I, ("p", a[0][1], add(a[0][2], C(D.off[c]))), FE(Poly.var(("s", ("sum",), 0, c)), ONEP, D.fp), st)
        st.put(a[0][1], add(a[0][2], C(D.off["cvp"])), 8, cv); st.put(a[0][1], add(a[0][2], C(D.off["is_neutral"])), 4, ZERO)
    return f


from models import fewr


def swaptab(prog, kind):
    """after a swap, a point with a table of multiples depends on its own curve object only"""
    from p22_base_table import addtable
    D = Curve(prog, kind, {"P1": P_(0), "P2": P_(1)}, mk=False); it = D.it; it.unroll = 4000; it.maxsteps = 4000000; S = D.S
    z1 = D.mpz(S[0], "n1", C(0x101))
    c1, S = D.mkcurve("cv1", S, _n=z1); c2, S = D.mkcurve("cv2", S, _n=z1); it.aborts.clear()
    for who in (1, 2):
        T_ = [s.copy() for s in S]
        P1, T_ = D.point("P1", T_, cv=c1); P2, T_ = D.point("P2", T_, cv=c2)
        D.cv = c1 if who == 1 else c2
        T, n, T_ = addtable(D, P1 if who == 1 else P2, T_, 2, 9)
        na, ne = len(it.aborts), len(it.events)
        out = D.dos("mpECP_swap", [P1, P2], T_); t = trouble(D, na, ne)
        if t: return D, "bad", f"mpECP_swap {t}"
        for s in out:
            for p in (P1, P2):
                cv = s.get(p[1], C(D.off["cvp"])); other = c2 if cv == c1 else c1
                w = dangling(s, p[1], {other[1]: "a curve object other than its own (through its table of multiples)"})
                if w: return D, "bad", f"after mpECP_swap a point depends on {w}"
    return D, "ok", ""


def curves(prog, kind, op):
    D = Curve(prog, kind, {}); it = D.it; S = D.S; a = D.cv
    if op == "cmp":
        b, S = D.mkcurve("cvB", S); pre = [(cells(s, a[1]), cells(s, b[1])) for s in S]
        for s0, (ca, cb) in zip(S, pre):
            for s in D.dos("mpECurve_cmp", [a, b], [s0]):
                w = changed(prog, ca, s, a[1]) or changed(prog, cb, s, b[1])
                if w: return D, "bad", f"comparing curves changes one of them: {w}"
        return D, "ok", ""
    if op == "setter":
        zs = [D.zp[k] for k in ("p", "1", "2", "n", "h", "Gx", "Gy")]; pre = [[dict(s.heap[z[1]].cells) for z in zs] for s in S]
        for s0, p in zip(S, pre):
            b, T = D.mkcurve("cvB", [s0])
            for s in T:
                for z, c in zip(zs, p):
                    if s.heap[z[1]].cells.get(("z", ZERO)) != c.get(("z", ZERO)): return D, "bad", "defining a curve changes one of the integers it is given"
                w = dangling(s, b[1], {z[1]: "an argument of the call" for z in zs})
                if w: return D, "bad", f"a curve object points into {w}"
        return D, "ok", ""
    for ok in KINDS:      # copy over a curve of any type
        T = [s.copy() for s in S]
        b = D.obj(T[0], "cvB", kind="malloc"); [s.heap.__setitem__(b[1], T[0].heap[b[1]]) for s in T]
        T = D.dos("mpECurve_init", [b], T)
        if ok != kind:
            z = {}
            for k in ("p", "1", "2", "n", "h", "Gx", "Gy"):
                z[k] = D.mpz(T[0], "o" + k); [s.heap.__setitem__(z[k][1], T[0].heap[z[k][1]]) for s in T]
            R_ = D.do(SETTER[ok][0], [b] + [z[k] for k in ("p", "1", "2", "n", "h", "Gx", "Gy")] + [C(300)], T); T = [s for v, s in R_ if v == ZERO] or [s for v, s in R_]
            it.aborts.clear()
        na, ne = len(it.aborts), len(it.events)
        for s0 in T:
            ca = cells(s0, a[1])
            out = D.dos("mpECurve_set", [b, a], [s0]); t = trouble(D, na, ne)
            if t: return D, "bad", f"mpECurve_set {t}"
            for s in out:
                w = changed(prog, ca, s, a[1])
                if w: return D, "bad", f"mpECurve_set changes its source: {w}"
                w = dangling(s, b[1], {a[1]: "the curve it was copied from"})
                if w: return D, "bad", f"a copied curve points into {w}"
    return D, "ok", ""


def scalar(prog, kind, how):
    import ptlayer as pl
    from p02_scalar_mult import ptcurve, gpoint, order
    n = order(8); D = ptcurve(prog, kind, n, (1 << 61) - 1); it = D.it; S = D.S
    c1 = D.cv; c3, S = D.mkcurve("cv3", S, bits=C(61))
    P, S = gpoint(D, S, "P"); R, S = D.point("R", S, neutral="blank", cv=c3)
    nfp = ("p", ("F", C(n)), ZERO); f = FE(Poly.var(("s", "k", 0, "k")), ONEP, nfp)
    if how == "mul-mpz":
        sc = D.mpz(S[0], "k"); [s.heap.__setitem__(sc[1], S[0].heap[sc[1]]) for s in S]
    else:
        sc = D.obj(S[0], "k", kind="malloc")
        for s in S:
            s.heap[sc[1]] = S[0].heap[sc[1]]; o = s.w(sc[1]); o.cells[("fe", ZERO)] = (16, f); o.cells[C(16)] = (8, nfp); o.res[("fe", ZERO)] = "live"
    fn = SC[how]
    if how == "base": S = D.dos("mpECP_scalar_base_mul_setup", [P], S)
    na, ne = len(it.aborts), len(it.events)
    for s0 in S:
        cb = {c[1]: cells(s0, c[1]) for c in (c1, c3)}; v0 = pl.pt_read(it, None, P, s0); k0 = dict(s0.heap[sc[1]].cells)
        out = D.dos(fn, [P] if how == "setup" else [R, P, sc], [s0]); t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
        if t: return D, "bad", f"{fn} {t}"
        for s in out:
            for c, b in cb.items():
                w = changed(prog, b, s, c)
                if w: return D, "bad", f"{fn} writes to a curve object: {w}"
            if pl.pt_read(it, None, P, s) != v0: return D, "bad", f"{fn} changes the point it multiplies"
            if s.get(P[1], C(D.off["cvp"])) != c1: return D, "bad", f"{fn} moves its input to another curve object"
            for k, v in k0.items():
                if k[0] in ("z", "fe") and s.heap[sc[1]].cells.get(k, (0, 0))[1] != v[1]: return D, "bad", f"{fn} changes the scalar"
            if how == "setup":
                w = dangling(s, P[1], {c3[1]: "another curve object"})
                if w: return D, "bad", f"the table built by {fn} points into {w}"
                continue
            if s.get(R[1], C(D.off["cvp"])) != c1: return D, "bad", f"the result of {fn} does not refer to the curve object of the point"
            w = dangling(s, R[1], {c3[1]: "the curve object it had before", P[1]: "the point"})
            if w: return D, "bad", f"the result of {fn} points into {w}"
    return D, "ok", ""
