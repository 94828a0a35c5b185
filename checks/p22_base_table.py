from scen import *
from grouplaw import P_
import ptlayer as pl
from ptlayer import PT
from p02_scalar_mult import ptcurve, gpoint, order, NM
from p03_coordinates import fe_obj

# operation -> does it give P a new value (P is the result object and holds a table)
ASSIGN = {"set": 1, "set-self": 0, "set_mpz": 1, "set_mpFp": 1, "set_neutral": 1, "neg": 1, "neg-self": 1, "add": 1, "add-first": 1, "add-second": 1, "add-neutral1": 1, "add-neutral2": 1,
          "add-neutral12": 1, "add-opposite": 1, "double": 1, "double-self": 1, "double-neutral": 1, "neg-neutral": 1, "sub": 1, "sub-first": 1, "sub-second": 1, "clear": 1, "cmp": 0, "affine": 0,
          "operand": 0, "bytes": 0}
HISTORY = ("set", "set_mpz", "set_neutral", "neg", "add", "double", "sub", "mul", "basemul", "swap1", "swap2", "longer", "twice", "self", "copy")


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("every function that stores a new value in a point holding a table of multiples leaves the point without that table: each of the entries is cleared once, the table is released once, "
             "and the new value's order does not decide how many entries are cleared")
    rep.rule("functions that only read a point with a table leave table and value together; exchanging two points exchanges their tables")
    rep.rule("after any assignment, base multiplication and table building use the new value (all scalar bits symbolic); no entry outside the table is read")
    fns = {}
    for kind in KINDS:
        for op in ASSIGN:
            fn = {"clear": "mpECP_clear", "cmp": "mpECP_cmp", "affine": "mpz_set_mpECP_affine_x", "operand": "mpECP_add", "bytes": "mpECP_out_bytes"}.get(op, "mpECP_" + op.split("-")[0])
            for bits in ((2,) if tier != "thorough" else (1, 2, 3)):
                obl(rep, f"discard:{fn}:{kind}:{op}:{bits}", prog.where(fn), fns, discard, prog, kind, op, bits)
        obl(rep, f"swap:{kind}", prog.where("mpECP_swap"), fns, swapped, prog, kind)
        for h in HISTORY:
            for nb in ((9,) if tier != "thorough" else (2, 8, 9, 17)):
                obl(rep, f"history:{kind}:{h}:order{nb}", prog.where("mpECP_scalar_base_mul"), fns, history, prog, kind, h, nb)
    rep.cover["functions_interpreted"] = fns


def addtable(D, P, S, bits, nbits_order):
    """give P an abstract table of live points, as table building leaves it"""
    it = D.it; o = {k: v[0] for k, v in D.p.offsets("_p_mpECP_t").items()}
    sz = D.p.structs["_p_mpECP_t"] if False else 104
    n = (nbits_order + bits - 1) // bits * (1 << bits)
    T = D.obj(S[0], "table", kind="malloc")
    for s in S[1:]: s.heap[T[1]] = S[0].heap[T[1]]
    for i in range(n): S = D.dos("mpECP_init", [("p", T[1], C(i * sz)), D.cv], S)
    for s in S:
        s.put(P[1], add(P[2], C(o["base_bits"])), 4, C(bits)); s.put(P[1], add(P[2], C(o["base_pt"])), 8, T)
    return T, n, S


def structsize(prog): return 104


def scene(prog, kind, bits, pts=("P", "A", "B")):
    D = Curve(prog, kind, {nm: P_(i) for i, nm in enumerate(pts)}, mk=False); it = D.it; it.unroll = 4000; it.maxsteps = 4000000
    S = D.S
    z1 = D.mpz(S[0], "n1", C(0x101)); z2 = D.mpz(S[0], "n2", C(0x10001))
    D.cv, S = D.mkcurve("cvA", S, _n=z1); D.cvB, S = D.mkcurve("cvB", S, _n=z2)
    it.aborts.clear()
    P, S = D.point("P", S)
    T, n, S = addtable(D, P, S, bits, 9)
    return D, P, T, n, S


def discard(prog, kind, op, bits):
    D, P, T, n, S = scene(prog, kind, bits); it = D.it
    o = D.off; base = op.split("-")[0]; var = op[len(base) + 1:]
    c2 = D.cvB
    A, S = D.point("A", S, cv=c2, neutral=var in ("neutral1", "neutral12", "neutral")); B, S = D.point("B", S, cv=c2, neutral=var in ("neutral2", "neutral12"))
    if base in ("add", "sub", "double", "neg") and var in ("first", "second", "self"): 
        A1, S = D.point("A", S, cv=D.cv) if False else (A, S)
        C1, S = newpoint(D, "B", "C1", S, D.cv)
        args = {"first": [P, P, C1], "second": [P, C1, P], "self": [P, P]}[var]
    elif op == "add-opposite":
        C1, S = newpoint(D, "A", "C1", S, c2); S = D.dos("mpECP_neg", [C1, C1], S); args = [P, A, C1]
    elif base in ("add", "sub"): args = [P, A, B]
    elif base in ("double", "neg"): args = [P, A]
    elif base == "set": args = [P, P] if var == "self" else [P, A]
    elif base == "set_neutral": args = [P, c2]
    elif base == "set_mpz": args = [P, ("p", ("I", "A.x"), ZERO), ("p", ("I", "A.y"), ZERO), c2]
    elif base == "set_mpFp":
        fs = []
        for c in "xy":
            f, S = fe_obj(D, S, "f" + c); S = D.dos("mpFp_init_fp", [f, D.fp], S)
            S = D.dos("mpFp_set_mpz_fp", [f, ("p", ("I", "A." + c), ZERO), D.fp], S); fs.append(f)
        args = [P, fs[0], fs[1], c2]
    elif op == "clear": args = [P]
    elif op == "cmp":
        C1, S = newpoint(D, "B", "C1", S, D.cv); args = [P, C1]
    elif op == "affine": args = [D.mpz(S[0], "outx", ZERO), P]; [s.heap.__setitem__(args[0][1], S[0].heap[args[0][1]]) for s in S]
    elif op == "operand":
        C1, S = newpoint(D, "B", "C1", S, D.cv); R, S = newpoint(D, None, "R", S, D.cv); args = [R, P, C1]
    elif op == "bytes":
        b = D.obj(S[0], "buf", 4096, kind="malloc"); [s.heap.__setitem__(b[1], S[0].heap[b[1]]) for s in S]; args = [b, P, ZERO]; it.unroll = 0
    fn = {"clear": "mpECP_clear", "cmp": "mpECP_cmp", "affine": "mpz_set_mpECP_affine_x", "operand": "mpECP_add", "bytes": "mpECP_out_bytes"}.get(op, "mpECP_" + base)
    na, ne = len(it.aborts), len(it.events)
    before = None
    if not ASSIGN[op]:
        before = [(x, y) for _, _, (x, y) in D.affine(P, S)]
    out = D.dos(fn, args, S)
    t = trouble(D, na, ne, ok_abort=op == "bytes")
    if t: return D, "bad", f"{fn} on a point with a table {t}"
    if not out: return D, "bad", f"{fn} never returns"
    for s in out:
        tb = s.heap[T[1]]; live = [k for k, v in tb.res.items() if v == "live"]
        bb = s.get(P[1], C(o["base_bits"])); bp = s.get(P[1], C(o["base_pt"]))
        if op == "clear":
            if s.zero_at(P[1], C(o["base_bits"]), 4): bb = ZERO
        if bb is None or bb[0] != "c": return D, "und", "size of the table not known"
        kept = bb != ZERO
        if ASSIGN[op]:
            if kept and op != "clear": return D, "bad", f"{fn} stores a new value in a point and leaves the table of multiples of the old value in place"
            if not tb.freed: return D, "bad", f"{fn} drops the table of multiples without releasing it"
            if live: return D, "bad", f"{fn} releases the table of {n} multiples with {len(live) // 3} of its entries never cleared"
        elif kept:
            if tb.freed: return D, "bad", f"{fn} releases the table but leaves it in use"
            if bb != C(bits) or bp != T: return D, "bad", f"{fn} changes the table of a point it only reads"
            if len(live) < 3 * n: return D, "bad", f"{fn} clears entries of a table that stays in use"
        else:
            if not tb.freed or live: return D, "bad", f"{fn} drops the table of multiples without releasing all of it"
        if before is not None and op != "set-self" or op == "set-self":
            for _, _, (x, y) in D.affine(P, [s]):
                if [D.evalt(x), D.evalt(y)] != [D.evalt(before[0][0]), D.evalt(before[0][1])]:
                    return D, ("bad" if clean_term(x) and clean_term(y) else "und"), f"{fn} changes the point it reads"
    return D, "ok", ""


def newpoint(D, aff, name, S, cv):
    """another point object with the affine value `aff` (None: only initialised)"""
    return D.point(name, S, neutral="blank" if aff is None else False, cv=cv, set_as=aff)


def swapped(prog, kind):
    D, P, T, n, S = scene(prog, kind, 2); it = D.it; o = D.off
    A, S = D.point("A", S, cv=D.cv)
    for a, b in ((P, A), (A, P)):
        na, ne = len(it.aborts), len(it.events)
        out = D.dos("mpECP_swap", [a, b], [s.copy() for s in S]); t = trouble(D, na, ne)
        if t: return D, "bad", f"mpECP_swap {t}"
        for s in out:
            tb = s.heap[T[1]]; live = [k for k, v in tb.res.items() if v == "live"]
            bbP, bbA = (s.get(x[1], C(o["base_bits"])) for x in (P, A)); bpA = s.get(A[1], C(o["base_pt"]))
            val = {}
            for nm, p in (("P", P), ("A", A)):
                for _, _, (x, y) in D.affine(p, [s]): val[nm] = (D.evalt(x), D.evalt(y))
            ref = {nm: tuple([aff[nm][i] for co, aff in D.samples] for i in (0, 1)) for nm in ("P", "A")}
            if val["P"] != ref["A"] or val["A"] != ref["P"]: return D, "bad", "mpECP_swap does not exchange the values"
            if bbP != ZERO: return D, "bad", "mpECP_swap leaves a table of multiples with the point that changed"
            if bbA == ZERO:
                if not tb.freed or live: return D, "bad", "mpECP_swap drops the table of multiples without releasing all of it"
            elif bbA != C(2) or bpA != T or tb.freed or len(live) < 3 * n: return D, "bad", "mpECP_swap does not keep the table of multiples with its point"
    return D, "ok", ""


def history(prog, kind, h, nb):
    """table built, point changed, base multiplication: compared with the multiple of the present value"""
    n = order(nb); D = ptcurve(prog, kind, n, (1 << 61) - 1); it = D.it; S = D.S
    P, S = gpoint(D, S, "P"); A, S = gpoint(D, S, "A"); B, S = gpoint(D, S, "B"); R, S = D.point("R", S, neutral="blank")
    nfp = ("p", ("F", C(n)), ZERO); sc = D.obj(S[0], "k", kind="malloc"); f = FE(Poly.var(("s", "k", 0, "k")), ONEP, nfp)
    for s in S:
        s.heap[sc[1]] = S[0].heap[sc[1]]; o = s.w(sc[1]); o.cells[("fe", ZERO)] = (16, f); o.cells[C(16)] = (8, nfp); o.res[("fe", ZERO)] = "live"
    na, ne = len(it.aborts), len(it.events)
    S = D.dos("mpECP_scalar_base_mul_setup", [P], S)
    one = lambda c: FE(Poly.const(c), ONEP, None)
    tgt = P; want = None
    if h == "set": S = D.dos("mpECP_set", [P, A], S); want = {"A": 1}
    elif h == "set_mpz":
        S = D.dos("mpECP_set_mpz", [P, ("p", ("I", "A.x"), ZERO), ("p", ("I", "A.y"), ZERO), D.cv], S); want = {"A": 1}
    elif h == "set_neutral": S = D.dos("mpECP_set_neutral", [P, D.cv], S); want = {}
    elif h == "neg": S = D.dos("mpECP_neg", [P, P], S); want = {"P": -1}
    elif h == "add": S = D.dos("mpECP_add", [P, A, B], S); want = {"A": 1, "B": 1}
    elif h == "double": S = D.dos("mpECP_double", [P, P], S); want = {"P": 2}
    elif h == "sub": S = D.dos("mpECP_sub", [P, A, P], S); want = {"A": 1, "P": -1}
    elif h == "mul" or h == "basemul":
        # P = k*A, read back as a combination; a second base multiplication would square the scalar, so test the table only
        S = D.dos("mpECP_scalar_mul" if h == "mul" else "mpECP_scalar_base_mul", [P, A if h == "mul" else P, sc], S)
        t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
        if t: return D, "bad", f"multiplying into a point with a table {t}"
        for s in S:
            if s.get(P[1], C(D.off["base_bits"])) != ZERO: return D, "bad", "a multiple is stored in a point that keeps the table of its old value"
        return D, "ok", ""
    elif h == "swap1": S = D.dos("mpECP_swap", [P, A], S); want = {"A": 1}
    elif h == "swap2": S = D.dos("mpECP_swap", [P, A], S); tgt = A; want = {"P": 1}
    elif h == "longer":
        n2 = order(nb + 9); z2 = D.mpz(S[0], "n2", C(n2)); [s.heap.__setitem__(z2[1], S[0].heap[z2[1]]) for s in S]
        cv2, S = D.mkcurve("cv2", S, _n=z2, bits=C(61)); nfp2 = ("p", ("F", C(n2)), ZERO); f = FE(Poly.var(("s", "k", 0, "k")), ONEP, nfp2)
        for s in S: o = s.w(sc[1]); o.cells[("fe", ZERO)] = (16, f); o.cells[C(16)] = (8, nfp2)
        S = D.dos("mpECP_set_mpz", [P, ("p", ("I", "A.x"), ZERO), ("p", ("I", "A.y"), ZERO), cv2], S); want = {"A": 1}; n = n2
    elif h == "twice": S = D.dos("mpECP_scalar_base_mul_setup", [P], S); want = {"P": 1}
    elif h == "self": S = D.dos("mpECP_set", [P, P], S); want = {"P": 1}
    elif h == "copy": S = D.dos("mpECP_set", [R, P], S); tgt = R; want = {"P": 1}
    S = D.dos("mpECP_scalar_base_mul_setup", [tgt], S)
    R2, S = D.point("R2", S, neutral="blank")
    S = D.dos("mpECP_scalar_base_mul", [R2, tgt, sc], S)
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"base multiplication after the point was changed ({h}) {t}"
    if not S: return D, "bad", "base multiplication never returns"
    k = Poly({((a, 1),): c for a, c in lin_parts(pl.bsum(f))[1].items()})
    W = PT({b: FE(k.scale(c), ONEP, None) for b, c in want.items()})
    for s in S:
        V = pl.facts(it, pl.pt_read(it, None, R2, s), s)
        if not pl.congruent(V, pl.facts(it, W, s), n): return D, "bad", f"base multiplication after the point was changed ({h}) does not use the present value of the point"
    return D, "ok", ""
