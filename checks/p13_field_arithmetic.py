from scen import *
import limblayer as ll
from limblayer import Limbs, V, P, B, know, entails, witness, redp, feasible, NoValue, show

RP = sub(P, ONE)
# operation -> (function, operands: e element, w word, x exponent word, z integer, expected value)
OPS = {
    "set": ("mpFp_set", "e", lambda a: a),
    "neg": ("mpFp_neg", "e", lambda a: mulc(a, -1)),
    "sqr": ("mpFp_sqr", "e", lambda a: mul(a, a)),
    "add": ("mpFp_add", "ee", add),
    "sub": ("mpFp_sub", "ee", sub),
    "mul": ("mpFp_mul", "ee", mul),
    "add_ui": ("mpFp_add_ui", "ew", add),
    "sub_ui": ("mpFp_sub_ui", "ew", sub),
    "mul_ui": ("mpFp_mul_ui", "ew", mul),
    "pow_ui": ("mpFp_pow_ui", "ew", lambda a, b: ("pow", a, b)),
}
ALIAS1 = ("apart", "c=a")
ALIAS2 = ("apart", "c=a", "c=b", "a=b", "all")
PRIOR = ("new", "short", "other-field")


def run(rep, tier, sizes=None):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("on every path of every field operation: the result is congruent to the mathematical value modulo p, lies in [0, p-1], occupies exactly psize words and belongs to the field; operands keep their value")
    rep.rule("for every way the result and operands may be the same object and every prior state of the result (new, holding fewer words than the field needs, element of another field)")
    rep.rule("no word outside a buffer is read or written, no word is read before it was written, no assertion can fail on valid operands")
    rep.rule("comparisons return zero exactly when the values are equal; conversions to and from integers of any size and sign keep the residue")
    fns = {}
    sizes = sizes or ((1, 2, 3, 16) if tier != "thorough" else (1, 2, 3, 4, 6, 8, 9, 16))
    for n in sizes:
        for op, (fn, kinds, ref) in OPS.items():
            als = ALIAS2 if kinds == "ee" else ALIAS1
            for al in als:
                for pr in (PRIOR if al in ("apart", "a=b") else ("-",)):
                    if pr == "short" and n == 1: continue
                    obl(rep, f"{fn}:{n}w:{al}:{pr}", prog.where(fn), fns, arith, prog, n, op, al, pr)
        for fn in ("mpFp_set_mpz", "mpFp_set_mpz_fp"):
            for k in sorted({0, 1, -1, n, -n, n + 1, -n - 1, 2 * n + 1, 3 * n + 2} if n < 16 else {0, 1, n, -n - 1, 2 * n + 1}):
                for pr in PRIOR:
                    if pr == "short" and n == 1: continue
                    obl(rep, f"{fn}:{n}w:integer-of-{k}-words:{pr}", prog.where(fn), fns, setmpz, prog, n, fn, k, pr)
        for fn in ("mpFp_set_ui", "mpFp_set_ui_fp"):
            for pr in PRIOR:
                if pr == "short" and n == 1: continue
                obl(rep, f"{fn}:{n}w:{pr}", prog.where(fn), fns, setui, prog, n, fn, pr)
        for al in ALIAS1:
            for k in (0, 1, n, n + 1):
                obl(rep, f"mpFp_pow_mpz:{n}w:{al}:exponent-of-{k}-words", prog.where("mpFp_pow_mpz"), fns, powmpz, prog, n, al, k)
            obl(rep, f"mpFp_pow_mpz:{n}w:{al}:negative-exponent", prog.where("mpFp_pow_mpz"), fns, powmpz, prog, n, al, -1)
        obl(rep, f"mpFp_swap:{n}w", prog.where("mpFp_swap"), fns, swap, prog, n, None)
        obl(rep, f"mpFp_swap:{n}w:self", prog.where("mpFp_swap"), fns, swap, prog, n, None, True)
        for c in (0, 1, 2, -1, 1 << 31, 256):
            obl(rep, f"mpFp_cswap:{n}w:{c}", prog.where("mpFp_cswap"), fns, swap, prog, n, c)
            obl(rep, f"mpFp_cswap:{n}w:{c}:self", prog.where("mpFp_cswap"), fns, swap, prog, n, c, True)
        for al in ("apart", "a=b"):
            obl(rep, f"mpFp_cmp:{n}w:{al}", prog.where("mpFp_cmp"), fns, cmp_, prog, n, "e", al)
        obl(rep, f"mpFp_cmp_ui:{n}w", prog.where("mpFp_cmp_ui"), fns, cmp_, prog, n, "w", 0)
        for k in sorted({0, 1, -1, n - 1, n, -n, n + 1, 2 * n + 1}):
            obl(rep, f"mpFp_cmp_mpz:{n}w:integer-of-{k}-words", prog.where("mpFp_cmp_mpz"), fns, cmp_, prog, n, "z", k)
        for k in sorted({0, 1, n, 2 * n + 1}):
            obl(rep, f"mpz_set_mpFp:{n}w:over-{k}-words", prog.where("mpz_set_mpFp"), fns, tompz, prog, n, k)
        for fn in ("mpFp_init", "mpFp_init_fp"): obl(rep, f"{fn}:{n}w", prog.where(fn), fns, lifetime, prog, n, fn)
        for i in sorted({0, 1, 31, 63, 64 * n - 1}): obl(rep, f"mpFp_tstbit:{n}w:bit-{i}", prog.where("mpFp_tstbit"), fns, tstbit, prog, n, i)
        for h in HISTORY: obl(rep, f"history:{n}w:{h}", prog.where("mpFp_set"), fns, history, prog, n, h)
    rep.cover["functions_interpreted"] = fns; rep.cover["word_sizes"] = list(sizes)


def setup(prog, n, names):
    D = Limbs(prog, n); it = D.it
    it.samples = ll.samples(n, names); it.shown = ["p"] + list(names)
    for nm, k in names.items(): it.bounds[nm] = (ZERO, RP) if k == "r" else (ZERO, C(B - 1)) if k == "w" else it.bounds.get(nm, (ZERO, None))
    return D


def target(D, st, prior, nm="c"):
    """the result object in its prior state"""
    n = D.n; it = D.it
    if prior == "new":
        p = D.obj(st, nm, 24, kind="alloca"); S = [s for _, s in D.do("mpFp_init_fp", [p, D.field], [st])]
        if len(S) != 1: raise AnalysisBroken("initialisation has several outcomes")
        return p, S[0]
    if prior == "short": return D.elem(st, nm, V("C1"), n=1, alloc=2, field=other(D, st, 1)), st
    return D.elem(st, nm, V("C2"), n=n + 1, alloc=2 * n + 2, field=other(D, st, n + 1)), st


def other(D, st, n):
    D.it.bounds["C1"] = D.it.bounds["C2"] = (ZERO, C(B ** n - 1))
    f = D.obj(st, f"field{n}", 48); fo = D.fo; o = st.heap[f[1]]
    D.it.bounds["p2"] = (C(2), C(B ** n - 1))
    D.rawz(st, f[1], fo["p"], V("p2"), n, 2 * n, "another modulus"); D.rawz(st, f[1], fo["pc"], V("pc2"), n, 2 * n, "pc")
    st.w(f[1]).cells[C(fo["psize"])] = (8, C(n)); st.w(f[1]).cells[C(fo["p2size"])] = (8, C(2 * n))
    return f


class Failed(Exception): pass


def judge(D, S, results, kept=()):
    """results: [(element, expected value)]; every path"""
    it = D.it
    if not S and not it.doubt: return D, "bad", "never returns"
    und = it.doubt
    for s in S:
        for p, want in results:
            r = one(D, s, p, want)
            if r is None: continue
            if r[0] == "bad": return D, "bad", r[1]
            und = und or r[1]
        for p, v, what in kept:
            pb, x = D.read(s, p)
            if pb or x != v:
                r = one(D, s, p, v)
                if r is not None:
                    if r[0] == "bad": return D, "bad", f"the {what} changes: {r[1]}"
                    und = und or f"{what}: {r[1]}"
    if und: return D, "und", und
    return D, "ok", f"{len(S)} paths"


def one(D, s, p, want):
    """None, ("bad", msg) or ("und", msg)"""
    it = D.it; nm = s.r(p[1]).name
    pb, v = D.read(s, p)
    if pb:
        w = witness(it, s)
        return ("bad", f"{nm}: {pb}, for {show(w, *it.shown)}") if w is not None else ("und", f"{nm}: {pb}") if feasible(it, s) else None
    if same(it, s, v, want) and entails(it, s, v) and entails(it, s, sub(RP, v)): return None
    for w in it.samples:
        try:
            if not w.satisfies(s): continue
            got, exp = w.ev(v), w.ev(want) % w.v["p"]
        except NoValue: continue
        if got != exp: return "bad", f"{nm} is {hex(got)} instead of {hex(exp)} for {show(w, *it.shown)}"
    if not feasible(it, s): return None
    return "und", f"{nm} not shown to be canonical"


def same(it, s, v, want):
    """v is congruent to want modulo p"""
    if redp(v) == redp(want) or ll.equal(it, s, v, want) or ll.equal(it, s, v, ll.mod(it, s, want)): return True
    d = redp(sub(v, want))
    for t in ll.atoms_of(s.ghost.get("lin", ())):       # residues that the path found to be zero
        if t[0] == "mod" and redp(t[1]) in (d, mulc(d, -1)) and ll.equal(it, s, t, ZERO): return True
    return False


def arith(prog, n, op, al, prior):
    fn, kinds, ref = OPS[op]
    names = {"A": "r"}
    if kinds == "ee" and al not in ("a=b", "all"): names["Bv"] = "r"
    if kinds[1:] == "w": names["w"] = "w"
    D = setup(prog, n, names); it = D.it; st = D.st0
    a = D.elem(st, "a", V("A")); args = [a]; vals = [V("A")]; kept = [(a, V("A"), "first operand")]
    if kinds == "ee":
        if al in ("a=b", "all"): b = a; vals.append(V("A"))
        else: b = D.elem(st, "b", V("Bv")); vals.append(V("Bv")); kept.append((b, V("Bv"), "second operand"))
        args.append(b)
    elif kinds[1:] == "w": args.append(V("w")); vals.append(V("w"))
    if al in ("c=a", "all"): c = a; kept = [k for k in kept if k[0] != a]
    elif al == "c=b": c = args[1]; kept = [k for k in kept if k[0] != c]
    else: c, st = target(D, st, prior)
    S = D.dos(fn, [c] + args, [st])
    want = ref(*vals)
    return judge(D, S, [(c, want)], kept)


def setmpz(prog, n, fn, k, prior):
    D = setup(prog, n, {"X": xvals(n, k)}); it = D.it; st = D.st0
    m = abs(k); it.bounds["X"] = (C(B ** (m - 1)), C(B ** m - 1)) if m else (ZERO, ZERO)
    x = D.zobj(st, "x", V("X") if m else ZERO, k)
    want = mulc(V("X"), -1 if k < 0 else 1) if m else ZERO
    c, st = target(D, st, prior)
    S = D.dos(fn, [c, x, D.field if fn.endswith("_fp") else D.zp], [st])
    return judge(D, S, [(c, want)], [])


def xvals(n, k):
    m = abs(k)
    def f(p, rnd):
        if not m: return [0]
        c = {B ** (m - 1), B ** m - 1, p, p - 1, p + 1, 2 * p, p * p, B ** (m - 1) + 1, rnd.randrange(B ** (m - 1), B ** m), p * (B ** (m - 1) // p + 1), p * (B ** (m - 1) // p + 1) + 1}
        return sorted(x for x in c if B ** (m - 1) <= x < B ** m)
    return f


def setui(prog, n, fn, prior):
    D = setup(prog, n, {"w": "w"}); st = D.st0
    c, st = target(D, st, prior)
    S = D.dos(fn, [c, V("w"), D.field if fn.endswith("_fp") else D.zp], [st])
    return judge(D, S, [(c, V("w"))])


def powmpz(prog, n, al, k):
    m = abs(k)
    D = setup(prog, n, {"A": "r", "E": (lambda p, rnd: sorted({B ** (m - 1), B ** m - 1, rnd.randrange(B ** (m - 1), B ** m)} if m else {0}))}); it = D.it; st = D.st0
    it.bounds["E"] = (C(B ** (m - 1)), C(B ** m - 1)) if m else (ZERO, ZERO)
    if k < 0: it.bounds["A"] = (ONE, RP); it.samples = [s for s in it.samples if s.v["A"]]
    e = D.zobj(st, "e", V("E") if m else ZERO, k)
    a = D.elem(st, "a", V("A")); c = a; kept = []
    if al == "apart": c, st = target(D, st, "new"); kept = [(a, V("A"), "base")]
    S = D.dos("mpFp_pow_mpz", [c, a, e], [st])
    return judge(D, S, [(c, ("pow", V("A"), mulc(V("E"), -1 if k < 0 else 1)) if m else ONE)], kept)


def swap(prog, n, c, self_=False):
    D = setup(prog, n, {"A": "r", "Bv": "r"}); st = D.st0
    a = D.elem(st, "a", V("A")); b = a if self_ else D.elem(st, "b", V("Bv"))
    if c is None: S = D.dos("mpFp_swap", [a, b], [st])
    else: S = D.dos("mpFp_cswap", [a, b, C(c)], [st])
    sw = c is None or c != 0
    if self_: return judge(D, S, [(a, V("A"))])
    return judge(D, S, [(a, V("Bv") if sw else V("A")), (b, V("A") if sw else V("Bv"))])


def cmp_(prog, n, kind, k):
    names = {"A": "r"}
    if kind == "e" and k == "apart": names["Bv"] = lambda p, rnd: ll.residues(p, n, rnd)
    if kind == "w": names["Bv"] = "w"
    m = 0
    if kind == "z":
        m = abs(k); names["Bv"] = lambda p, rnd: sorted(set(xvals(n, k)(p, rnd)) | {x for x in ll.residues(p, n, rnd) if (B ** (m - 1) if m else 0) <= x < B ** m})
    D = setup(prog, n, names); it = D.it; st = D.st0
    a = D.elem(st, "a", V("A")); kept = [(a, V("A"), "first operand")]
    if kind == "e":
        it.bounds["Bv"] = (ZERO, RP)
        b, bv = (a, V("A")) if k != "apart" else (D.elem(st, "b", V("Bv")), V("Bv")); fn = "mpFp_cmp"
        if k == "apart": kept.append((b, bv, "second operand"))
    elif kind == "w": it.bounds["Bv"] = (ZERO, C(B - 1)); b = bv = V("Bv"); fn = "mpFp_cmp_ui"
    else:
        it.bounds["Bv"] = (C(B ** (m - 1)), C(B ** m - 1)) if m else (ZERO, ZERO)
        bv = mulc(V("Bv"), -1 if k < 0 else 1) if m else ZERO; b = D.zobj(st, "b", V("Bv") if m else ZERO, k); fn = "mpFp_cmp_mpz"
    und = None; n_ = 0
    # pair every sample with an equal second operand
    extra = []
    for s in it.samples:
        if m and not (B ** (m - 1) <= s.v["A"] < B ** m): continue
        if kind == "w" and s.v["A"] >= B: continue
        if kind == "e" and k != "apart": continue
        if kind == "z" and m == 0 and s.v["A"]: continue
        extra.append(ll.Sample(dict(s.v, Bv=s.v["A"])))
    it.samples += extra
    d = sub(V("A"), bv)
    for facts, eq in (([d, mulc(d, -1)], True), ([sub(d, ONE)], False), ([sub(C(-1), d)], False)):
        if not feasible(it, st, facts): continue
        st1 = st.copy(); ll.know(st1, *facts)
        for r, s in D.do(fn, [a, b], [st1]):
            n_ += 1; r = num(r); z = it.icmp("eq", r, ZERO, s); t = it.truth(z, s) if z[0] != "c" else bool(z[1])
            if t != eq:
                s2 = s.copy()
                if t is None and not it.assume(z, not eq, s2): continue
                for w in it.samples:
                    try:
                        if w.satisfies(s2): return D, "bad", f"returns {'nonzero' if eq else 'zero'} for a = {hex(w.v['A'])}, b = {hex(w.ev(bv))}, p = {hex(w.v['p'])}"
                    except NoValue: pass
                if feasible(it, s2): und = und or f"result for {'equal' if eq else 'different'} values not decided"
    for s in ():
        st_, msg = judge(D, [s], [], kept)[1:]
        if st_ == "bad": return D, st_, msg
        if st_ == "und": und = und or msg
    und = und or it.doubt
    if und: return D, "und", und
    return (D, "ok", f"{n_} outcomes") if n_ else (D, "bad", "never returns")


def tompz(prog, n, k):
    D = setup(prog, n, {"A": "r"}); it = D.it; st = D.st0
    it.bounds["Y"] = (ZERO, C(B ** max(k, 1) - 1))
    z = D.zobj(st, "z", V("Y") if k else ZERO, k); a = D.elem(st, "a", V("A"))
    und = None; S = D.dos("mpz_set_mpFp", [z, a], [st])
    for s in S:
        x = ll.zget(it, None, s, z)
        sz = s.get(z[1], C(4))
        if x != V("A") and not ll.equal(it, s, x, V("A")):
            for w in it.samples:
                try:
                    if w.satisfies(s) and w.ev(x) != w.v["A"]: return D, "bad", f"the integer is {hex(w.ev(x))} instead of {hex(w.v['A'])} for p = {hex(w.v['p'])}"
                except NoValue: pass
            if feasible(it, s): und = und or "value not decided"
        try: ll.needs_normal(it, None, s, z, "a later mpz_cmp")
        except Violation: return D, "bad", "the integer keeps leading zero words"
    st_, msg = judge(D, S, [], [(a, V("A"), "element")])[1:]
    if st_ != "ok": return D, st_, msg
    return D, "und" if und else "ok", und or f"{len(S)} paths"


def lifetime(prog, n, fn):
    """init, use, clear"""
    D = setup(prog, n, {"A": "r"}); it = D.it; st = D.st0
    c = D.obj(st, "c", 24, kind="alloca"); a = D.elem(st, "a", V("A"))
    S = D.dos(fn, [c, D.field if fn.endswith("_fp") else D.zp], [st])
    for s in S:
        if s.get(c[1], C(D.eo["fp"])) != D.field: return D, "bad", "the element does not belong to the field"
    S1 = D.dos("mpFp_set", [c, a], S); r = judge(D, S1, [(c, V("A"))], [(a, V("A"), "operand")])
    if r[1] != "ok": return r
    bufs = [s.get(c[1], C(D.eo["i"] + 8)) for s in S1]
    S2 = D.dos("mpFp_clear", [c], S1)
    for s in S2:
        for b in bufs:
            if b[1] in s.heap and not s.r(b[1]).freed: return D, "bad", "mpFp_clear leaves the words of the element allocated"
    return D, "ok", f"{len(S2)} paths"


def tstbit(prog, n, i):
    D = setup(prog, n, {"A": "r"}); it = D.it; st = D.st0
    a = D.elem(st, "a", V("A")); und = None
    for r, s in D.do("mpFp_tstbit", [a, C(i)], [st]):
        r = num(r)
        if r == ("tstbit", V("A"), C(i)): continue
        for w in it.samples:
            try:
                if w.satisfies(s) and (w.ev(r) != 0) != bool(w.v["A"] >> i & 1): return D, "bad", f"bit {i} of {hex(w.v['A'])} is reported as {w.ev(r)}"
            except NoValue: pass
        und = "bit not decided"
    return D, "und" if und else "ok", und or ""


# sequences in which one result feeds the next, with objects reused across fields of different sizes
HISTORY = ("ops", "grow", "shrink")


def history(prog, n, h):
    D = setup(prog, n, {"A": "r", "Bv": "r"}); it = D.it; st = D.st0; names = D.it
    a = D.elem(st, "a", V("A")); b = D.elem(st, "b", V("Bv"))
    if h == "ops":       # (a*b + a - b) kept in one object, with its square
        c, st = target(D, st, "new"); S = [st]
        S = D.dos("mpFp_mul", [c, a, b], S); S = D.dos("mpFp_add", [c, c, a], S); S = D.dos("mpFp_sub", [c, c, b], S)
        return judge(D, S, [(c, sub(add(mul(V("A"), V("Bv")), V("A")), V("Bv")))], [(a, V("A"), "operand"), (b, V("Bv"), "operand")])
    c, st = target(D, st, "short" if h == "grow" and n > 1 else "other-field"); S = [st]
    S = D.dos("mpFp_set_mpz_fp", [c, D.zobj(st, "x", ZERO, 0), D.field], S); S = D.dos("mpFp_add", [c, c, a], S); S = D.dos("mpFp_mul", [c, b, c], S)
    return judge(D, S, [(c, mul(V("A"), V("Bv")))], [(a, V("A"), "operand"), (b, V("Bv"), "operand")])
