import pylayer as py
from pylayer import *

CMP = {2: "eq", 3: "ne"}
N = 65537; P = (1 << 31) - 1


def run(rep, tier):
    scenarios(rep, tier)


def scenarios(rep, tier, wrap=lambda f: f):
    prog = py_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("the functions are found through the type objects' slots and method tables; applied to Python objects with symbolic contents they return the object whose value is the operation's, for field elements as polynomial identity, for points as combination")
    rep.rule("integers: for every length up to 2056 bits and both signs, the conversion's bytes reassemble to the integer; integers that do not fit are refused, and no result is made from a refused integer")
    rep.rule("arguments reach the library's parameter of the same meaning (curve coefficients, coordinates, keys), attributes return the parameter they name")
    fns = {}
    w = lambda *a: "python/" + a[0]
    def o(key, where, f, *a): obl(rep, key, where, fns, guarded(wrap(f)), prog, *a)
    for op in ("add", "sub", "mul"):
        for k in FEK: o(f"FieldElement:{op}:{k}", "python/pyfield.c", fe_bin, op, k)
    for u in ("neg", "int", "inverse", "sqrt"): o(f"FieldElement:{u}", "python/pyfield.c", fe_un, u)
    for k in ("symbol", 0, 1, 5): o(f"FieldElement:pow:{k}", "python/pyfield.c", fe_pow, k)
    for op in CMP:
        for k in ("same", "equal", "different", "int-equal", "int-different"): o(f"FieldElement:{CMP[op]}:{k}", "python/pyfield.c", fe_cmp, op, k)
    for k in ("plain", "negative", "huge", "huge-modulus"): o(f"FieldElement:new:{k}", "python/pyfield.c", fe_new, k)
    for kind in KINDS if "thorough" in tier else ("ws", "te"):
        for op in ("add", "sub"):
            for k in ("points", "neutral", "equal", "two-curves"): o(f"ECPoint:{op}:{kind}:{k}", "python/pypoint.c", pt_bin, op, kind, k)
        o(f"ECPoint:neg:{kind}", "python/pypoint.c", pt_neg, kind)
        for k in PTMUL: o(f"ECPoint:mul:{kind}:{k}", "python/pypoint.c", pt_mul, kind, k)
        for op in CMP:
            for k in ("same", "equal", "different"): o(f"ECPoint:{CMP[op]}:{kind}:{k}", "python/pypoint.c", pt_cmp, kind, op, k)
        for m in ("affine", "compressed", "uncompressed", "str"): o(f"ECPoint:{m}:{kind}", "python/pypoint.c", pt_out, kind, m)
        for k in PTNEW: o(f"ECPoint:new:{kind}:{k}", "python/pypoint.c", pt_new, kind, k)
    for kind in KINDS:
        for a in ("p", "n", "h", "G", "bits", "1", "2"): o(f"ECurve:{kind}:{a}", "python/pycurve.c", cv_attr, kind, a)
        o(f"ECurve:new:{kind}", "python/pycurve.c", cv_new, kind)
        for op in CMP:
            for k in ("equal", "different"): o(f"ECurve:{CMP[op]}:{kind}:{k}", "python/pycurve.c", cv_cmp, kind, op, k)
    o("ECurve:PointIsValid", "python/pycurve.c", cv_valid)
    for m in ("new", "encrypt", "decrypt-fe", "decrypt-int", "C", "D"): o(f"ECElgamalCiphertext:{m}", "python/pyecelgamal.c", elg, m)
    for k in SIG: o(f"ECDSA:{k}", "python/pyecdsa.c", ecdsa, k)
    if "refs" in tier: rep.cover["functions_interpreted"] = fns; return
    for b in BITS:
        for sg in (1, -1): o(f"integer:to-mpz:{b}bits:{'negative' if sg < 0 else 'positive'}", "python/pygmplong.c", to_mpz, "_pylong_to_mpz", b, sg)
        o(f"integer:to-mpz-unsigned:{b}bits", "python/pygmplong.c", to_mpz, "_pylong_to_mpz_unsigned", b, 1)
        if b in (0, 8, 9, 16, 24, 31, 32, 33, 64, 65, 71, 256, 264, 521):
            for pat in PAT:
                for sg in (1, -1): o(f"integer:to-mpz:{b}bits:{'negative' if sg < 0 else 'positive'}:{pat}", "python/pygmplong.c", to_mpz, "_pylong_to_mpz", b, sg, pat)
                o(f"integer:to-mpz-unsigned:{b}bits:{pat}", "python/pygmplong.c", to_mpz, "_pylong_to_mpz_unsigned", b, 1, pat)
        if b <= 2048: o(f"integer:from-mpz:{b}bits", "python/pygmplong.c", from_mpz, b)
    o("integer:to-mpz-unsigned:negative", "python/pygmplong.c", to_mpz, "_pylong_to_mpz_unsigned", 9, -1)
    rep.cover["functions_interpreted"] = fns


def guarded(f):
    """a verdict that rests on calls of the C API whose contract is not modelled here is none"""
    def g(prog, *a):
        py.LAST = None
        try: D, st, msg = f(prog, *a)
        except Violation as e:
            u = foreign()
            if u: raise AnalysisBroken(f"outcome of {u} unknown ({e})")
            raise
        u = foreign()
        return (D, "und", f"outcome of {u} unknown ({msg})") if st == "bad" and u else (D, st, msg)
    return g


def foreign():
    u = sorted(n for n in py.LAST.D.it.unknown if n.startswith(("Py", "_Py"))) if py.LAST else ()
    return ", ".join(u)


BITS = tuple(range(0, 42)) + (63, 64, 65, 127, 128, 129, 255, 256, 257, 384, 511, 512, 513, 521, 1023, 1024, 1025, 2039, 2040, 2041, 2046, 2047, 2048, 2049, 2055, 2056, 2057, 4096)


PAT = {"zeros": lambda i: 0, "ones": lambda i: 255, "low-bit": lambda i: 1 if i == 0 else 0, "high-bit": lambda i: 128, "mixed": lambda i: (37 * i + 11) % 256}


def bytes_of(Y, b, sg, pat=None):
    """bytes of the two's complement of an integer whose absolute value has b bits: (bytes, integer)"""
    k = b // 8 + 1; bs = []
    for i in range(k):
        if i < k - 1: lo, hi = 0, 255
        elif sg > 0: lo, hi = (1 << b % 8) >> 1 if b else 0, (1 << b % 8) - 1
        else: lo, hi = 256 - (1 << b % 8), 255
        if i == k - 2 and b % 8 == 0 and b and sg > 0: lo = 128
        if pat:
            v = PAT[pat](i); lo = hi = lo if v < lo else hi if v > hi else v
        if lo == hi: bs.append(C(lo)); continue
        t = ("s", f"byte{i}", 0, f"byte{i}"); bs.append(t)
        for s in Y.S: s.assume0("sge", add(t, C(-lo))); s.assume0("sle", add(t, C(-hi)))
    z = ZERO
    for i, t in enumerate(bs): z = add(z, mulc(t, 256 ** i))
    return bs, z if sg > 0 else add(z, C(-256 ** k))


def bitops(Y):
    """bits of a byte"""
    it = Y.it; old = it.binop
    def binop(op, ty, a, b, st):
        a2, b2 = num(a), num(b)
        if getattr(ty, "k", None) == "i" and ty.n == 8 and op in ("add", "sub"):
            r = add(a2, b2) if op == "add" else sub(a2, b2); lo, hi = st.interval(r)
            if lo == hi: return C(lo % 256)
            return r if 0 <= lo and hi <= 255 else ("wrap8", r)
        if getattr(ty, "k", None) == "i" and ty.n == 8 and op in ("and", "or", "xor") and a2[0] == b2[0] == "c":
            x, y = a2[1] % 256, b2[1] % 256; return C(x & y if op == "and" else x | y if op == "or" else x ^ y)
        if b2[0] == "c" and a2[0] != "c":
            lo, hi = st.interval(a2)
            if 0 <= lo and hi <= 255:
                if op == "and" and b2[1] in (128, -128):
                    if hi < 128: return ZERO
                    if lo >= 128: return C(128)
                if op == "xor" and b2[1] in (255, -1): return sub(C(255), a2)
        return old(op, ty, a, b, st)
    it.binop = binop; it.unroll_pointers = True; olds = it.simple
    def simple(fn, I, env, st, fid):
        if I.op == "cast" and I.x["cast"] == "sext" and I.args[0][0].k == "i" and I.args[0][0].n == 8:
            v = num(it.const(fn, I.args[0][0], I.args[0][1], env, st))
            lo, hi = st.interval(v)
            if lo >= 128: return add(v, C(-256))
            if hi > 127: return ("sext8", v)
        if I.op == "icmp" and I.args[0][0].k == "i" and I.args[0][0].n == 8 and I.x["pred"][0] == "s":
            a = [num(it.const(fn, I.args[0][0], q, env, st)) for q in (I.args[0][1], I.args[1][1])]
            for i in (0, 1):
                if st.interval(a[i])[0] >= 128: a[i] = add(a[i], C(-256))
            return it.icmp(I.x["pred"], a[0], a[1], st, I.args[0][0])
        return olds(fn, I, env, st, fid)
    it.simple = simple


def to_mpz(prog, f, b, sg, pat=None):
    Y = Py(prog, conv=False); bitops(Y); bs, z = bytes_of(Y, b, sg, pat); Y.it.unroll = 300
    Y.it.models["__gmpz_import"] = el.m_import
    p = Y.make("integer", "PyLong_Type", bytes=bs, nbits=b, neg=sg < 0, long=z); q = Y.D.mpz(Y.S[0], "result", ZERO); Y.share(q); bad = None; n = 0
    for v, s in Y.call(f, [p, q]):
        r = Y.it.truth(Y.it.icmp("eq", num(v), ZERO, s), s); n += 1
        if r is None: return Y.D, "und", f"status {v}"
        if not r:
            if b <= 1024 and not (sg < 0 and "unsigned" in f): bad = f"an integer of {b} bits is refused"
            continue
        g = zrd(Y.it, None, q, s)
        if sg < 0 and "unsigned" in f: bad = "a negative integer is converted as an unsigned one"
        elif sub(g, z) != ZERO:
            if any(a[0] != "s" for a, _ in (g[2] if g[0] == "lin" else ((g, 1),)) if g[0] != "c"): return Y.D, "und", f"{str(g)[:200]}"
            bad = "the integer read back differs from the one given"
    return out(Y.D, bad, n)


def from_mpz(prog, b):
    Y = Py(prog, conv=False); bitops(Y); bs, z = bytes_of(Y, b, 1); Y.it.unroll = 300; Y.it.models["__gmpz_export"] = m_exportb
    while bs and bs[-1] == ZERO: bs.pop()
    q = Y.D.mpz(Y.S[0], "value", z); Y.share(q); bad = None; n = 0; Y.S[0].heap[q[1]].meta["bytes"] = bs
    for s in Y.S: s.put(q[1], C(4), 4, C((b + 63) // 64))
    for v, s in Y.call("_mpz_to_pylong", [q]):
        if v == ZERO: bad = "the conversion fails"; continue
        n += 1; g = py.long_of(s, v)
        if g is None: return Y.D, "und", f"result {v}"
        if sub(g, z) != ZERO: bad = "the Python integer differs from the one given"
    return out(Y.D, bad, n)


def out(D, bad, n, what=""):
    if bad: return D, "bad", bad
    if n == 0: return D, "bad" if D.it.aborts else "und", "no path returns a result" + what
    return D, "ok", f"{n} paths"


def tn(s, v): return py.typename(s, v) if isinstance(v, tuple) and v[0] == "p" and v[1] in s.heap else None


def crashed(Y):
    a = Y.it.live_aborts() if hasattr(Y.it, "live_aborts") else Y.it.aborts
    return None


FEK = ("fe,fe", "fe,int", "fe,-int", "int,fe", "-int,fe", "fe,fe-same", "fe,huge", "huge,fe")
SLOT = {"add": "nb_add", "sub": "nb_subtract", "mul": "nb_multiply", "neg": "nb_negative", "int": "nb_int", "pow": "nb_power"}


def numslot(Y, t, op): return Y.slot(Y.S[0], t, "tp_as_number", SLOT[op], "PyNumberMethods")


def operand(Y, k, name):
    """(object, its value as a field element or None if no value may result)"""
    if k == "fe": return Y.fe(name)
    if k == "huge": return Y.long(name, huge=True), None
    t = ("s", name, 0, name)
    p = Y.long(name, mulc(t, -1) if k == "-int" else t)
    for s in Y.S: s.assume0("sge", t)
    return p, red(mulc(t, -1) if k == "-int" else t, Y.D.nfp)


def feop(op, x, y):
    from models import fadd, fmul
    return fmul(x, y) if op == "mul" else fadd(x, y, 1 if op == "add" else -1)


def fe_bin(prog, op, k):
    Y = Py(prog); a, b = k.split(",")
    x, xv = operand(Y, a, "x")
    if b == "fe-same": y, yv = x, xv
    else: y, yv = operand(Y, b, "y")
    bad = None; n = 0
    for v, s in Y.call(numslot(Y, "FieldElementType", op), [x, y]):
        if xv is None or yv is None:
            n += 1
            if v != ZERO and v != py.NOTIMPL: bad = "a result is returned though the integer could not be converted"
            continue
        if v == ZERO or v == py.NOTIMPL: bad = "the operation is refused"; continue
        if tn(s, v) != "FieldElementType": return Y.D, "und", f"result {v}"
        r = Y.rd_fe(v, s); want = feop(op, xv, yv); n += 1
        if r.fp != Y.D.nfp: bad = "the result belongs to another field"
        elif not eqfe(r, want): bad = f"the result is {r!r}, not {want!r}"
    return out(Y.D, bad, n)


def fe_un(prog, op):
    Y = Py(prog); x, xv = Y.fe("x"); f = numslot(Y, "FieldElementType", op) if op in SLOT else Y.method("FieldElementType", op)
    calls = []
    if op == "sqrt":
        def m(it, I, a, st):
            s2 = st.copy(); v = ferd(it, I, a[1], st)
            fewr(it, I, a[0], FE(Poly.var(("root", repr(v))), ONEP, v.fp), st); return [(ZERO, st), (C(-1), s2)]
        Y.it.models["mpFp_sqrt"] = m
    bad = None; n = 0
    for v, s in Y.call(f, [x, ZERO]):
        n += 1
        if op == "int":
            z = py.long_of(s, v)
            if z is None: return Y.D, "und", f"result {v}"
            if not (z[0] == "int" and eqfe(z[1], xv)): bad = f"the integer is {z}, not that of the element"
            continue
        if v == py.NONE_: n -= 1; continue
        if v == ZERO: bad = "the operation fails"; continue
        if tn(s, v) != "FieldElementType": return Y.D, "und", f"result {v}"
        r = Y.rd_fe(v, s)
        want = {"neg": FE(xv.n.scale(-1), xv.d, xv.fp), "inverse": FE(xv.d, xv.n, xv.fp), "sqrt": FE(Poly.var(("root", repr(xv))), ONEP, xv.fp)}[op]
        if not eqfe(r, want): bad = f"the result is {r!r}, not {want!r}"
    return out(Y.D, bad, n)


def fe_pow(prog, k):
    Y = Py(prog); x, xv = Y.fe("x"); e = Y.long("e", ("s", "e", 0, "e") if k == "symbol" else C(k), lo=0 if k == "symbol" else None)
    log = []
    if k == "symbol":
        def m(it, I, a, st): fewr(it, I, a[0], FE(Poly.var(("power", repr(ferd(it, I, a[1], st)), repr(num(a[2])))), ONEP, Y.D.nfp), st)
        def gu(it, I, a, st):
            z = zrd(it, I, a[0], st); s2 = st.copy(); low = ("s", "low word", 0, "low word")
            st.assume0("sle", add(z, C(-(1 << 64) + 1)))
            s2.assume0("sge", add(z, C(-(1 << 64)))); s2.assume0("sge", low); s2.assume0("sle", add(low, C(-(1 << 64) + 1))); return [(z, st), (low, s2)]
        Y.it.models["mpFp_pow_ui"] = m; Y.it.models["__gmpz_get_ui"] = gu
        want = FE(Poly.var(("power", repr(xv), repr(("s", "e", 0, "e")))), ONEP, Y.D.nfp)
    else: want = FE(ONEP, ONEP, Y.D.nfp) if k == 0 else models_pow(xv, k)
    bad = None; n = 0
    for v, s in Y.call(numslot(Y, "FieldElementType", "pow"), [x, e, py.NONE_]):
        if v == ZERO:
            if k != "symbol": bad = "the power is refused"
            continue
        if tn(s, v) != "FieldElementType": return Y.D, "und", f"result {v}"
        n += 1; r = Y.rd_fe(v, s)
        if not eqfe(r, want): bad = f"the result is {r!r}, not {want!r}"
    return out(Y.D, bad, n)


def models_pow(x, k):
    from models import fpow
    return fpow(x, k)


def verdict(v): return True if v == py.TRUE_ else False if v == py.FALSE_ else None


def fe_cmp(prog, op, k):
    Y = Py(prog); x, xv = Y.fe("x"); eq = k in ("same", "equal", "int-equal")
    f1 = FE(xv.n + Poly.const(1), xv.d, xv.fp)
    if k == "same": y = x
    elif k in ("equal", "different"): y, _ = Y.fe("y", f=xv if eq else f1)
    else:
        x, xv = Y.fe("c", f=FE(Poly.const(41), ONEP, Y.D.nfp)); y = Y.long("y", C(41 if eq else 42))
    return compare(Y, "FieldElementType", x, y, op, eq)


def compare(Y, t, x, y, op, eq):
    bad = None; n = 0
    for v, s in Y.call(Y.slot(Y.S[0], t, "tp_richcompare"), [x, y, C(op)]):
        r = verdict(v)
        if r is None: return Y.D, "und" if v != ZERO else "bad", f"result {v}"
        n += 1
        if r != (eq == (op == 2)): bad = f"{'==' if op == 2 else '!='} is {r} for {'equal' if eq else 'different'} operands"
    return out(Y.D, bad, n)


def fe_new(prog, k):
    Y = Py(prog); z = ("s", "z", 0, "z")
    zo = Y.long("z", mulc(z, -1) if k == "negative" else z, huge=k == "huge"); po = Y.long("m", C(N), huge=k == "huge-modulus")
    for s in Y.S: s.assume0("sge", z)
    t = Y.tuple("args", [zo, po]); o_ = Y.make("new element", "FieldElementType"); bad = None; n = 0
    for v, s in Y.call(Y.slot(Y.S[0], "FieldElementType", "tp_init"), [o_, t, ZERO]):
        if "huge" in k:
            n += 1
            if v == ZERO: bad = "an element is made from an integer that could not be converted"
            continue
        if v != ZERO: bad = "the construction fails"; continue
        n += 1; r = Y.rd_fe(o_, s); want = red(mulc(z, -1) if k == "negative" else z, Y.D.nfp)
        if r.fp != Y.D.nfp or not eqfe(r, want): bad = f"the element is {r!r} of {r.fp}, not {want!r}"
    return out(Y.D, bad, n)


# ------------------------------------------------------------------ points
def pt_result(Y, f, args, want, cvs, may_fail=False):
    bad = None; n = 0; want = want if isinstance(want, PT) else want
    for v, s in Y.call(f, args):
        if v == ZERO or v == py.NOTIMPL:
            if not may_fail: bad = "the operation is refused"
            continue
        if tn(s, v) != "ECPointType": return Y.D, "und", f"result {v}"
        n += 1; V, cv = Y.rd_pt(v, s); W = canon(Y.it, want, s)
        if not Y.eqpt(V, W, s): bad = f"the result is {V!r}, not {W!r}"
        elif cv not in cvs: bad = "the result belongs to another curve object"
    return out(Y.D, bad, n)


PT = pl.PT


def pt_bin(prog, op, kind, k):
    Y = Py(prog, kind); c1 = Y.curve("c1"); c2 = Y.curve("c2") if k == "two-curves" else c1
    a, av = Y.point("A", c1); b, bv = Y.point("B", c2, {"neutral": PT({}), "equal": av}.get(k))
    return pt_result(Y, numslot(Y, "ECPointType", op), [a, b], pl.padd(av, bv, 1 if op == "add" else -1), (c1[1], c2[1]))


def pt_neg(prog, kind):
    Y = Py(prog, kind); c = Y.curve("c1"); a, av = Y.point("A", c)
    return pt_result(Y, numslot(Y, "ECPointType", "neg"), [a], el.negpt(av), (c[1],))


PTMUL = ("pt,int", "int,pt", "pt,-int", "-int,pt", "pt,fe", "fe,pt", "neutral,int")


def pt_mul(prog, kind, k):
    Y = Py(prog, kind); c = Y.curve("c1"); a, b = k.split(","); objs = []; V = W = None
    for x, nm in ((a, "x"), (b, "y")):
        if x in ("pt", "neutral"): o_, V = Y.point("A", c, PT({}) if x == "neutral" else None)
        else: o_, W = operand(Y, x, nm)
        objs.append(o_)
    from models import fmul
    return pt_result(Y, numslot(Y, "ECPointType", "mul"), objs, PT({q: fmul(FE(v.n, v.d, Y.D.nfp), W) for q, v in V.d.items()}), (c[1],))


def pt_cmp(prog, kind, op, k):
    Y = Py(prog, kind); c = Y.curve("c1"); a, av = Y.point("A", c)
    from models import fmul
    two = PT({q: fmul(v, FE(Poly.const(2), ONEP, Y.D.nfp)) for q, v in av.d.items()})
    b = a if k == "same" else Y.point("B", c, av if k == "equal" else two)[0]
    return compare(Y, "ECPointType", a, b, op, k != "different")


def pt_out(prog, kind, m):
    Y = Py(prog, kind); c = Y.curve("c1"); a, av = Y.point("A", c)
    f = Y.slot(Y.S[0], "ECPointType", "tp_str") if m == "str" else Y.method("ECPointType", m); bad = None; n = 0
    for v, s in Y.call(f, [a, ZERO]):
        t = tn(s, v)
        if v == ZERO: bad = "the operation fails"; continue
        V = canon(Y.it, av, s); n += 1
        if m == "affine":
            if t != "PyTuple_Type": return Y.D, "und", f"result {v}"
            for i, cd in ((0, "x"), (1, "y")):
                z = py.long_of(s, py.item(s, v, i))
                if z is None or z[0] != "ec" + cd: bad = f"item {i} of the tuple is {z and z[0]}, not the {cd} coordinate"; continue
                if not (eqpt(z[1], V) or cd == "x" and eqpt(z[1], el.negpt(V))): bad = f"item {i} of the tuple is a coordinate of another point"
            continue
        x = s.heap[v[1]].meta.get("text"); ln = s.heap[v[1]].meta.get("len")
        if not isinstance(x, tuple): return Y.D, "und", f"content {x}"
        kd = "str" if m == "str" else "bytes"; cmpd = m != "uncompressed"
        if x[0] != kd or t != ("PyUnicode_Type" if m == "str" else "PyBytes_Type"): bad = f"the result is a {t} of {x[0]}"
        elif not eqpt(x[1], V): bad = "the result shows another point"
        elif x[2] is not None and x[2] != cmpd and m != "str": bad = f"the {m} form is written {'compressed' if x[2] else 'uncompressed'}"
        elif ln is not None and ln[0] == "u" and ln[2][0] == "outlen" and (ln[2][1], ln[2][3]) != (x[0], x[2]): bad = "the length is that of another form"
        elif ln is not None and ln[0] != "u": bad = f"the result has length {ln}"
    return out(Y.D, bad, n)


PTNEW = ("neutral", "ints", "negative-ints", "elements", "str", "bytes", "huge-x", "huge-y", "other-field", "mixed")


def pt_new(prog, kind, k):
    Y = Py(prog, kind); pc, cv = Y.curve("c1"); fp = Y.D.fp; args = [pc]; want = None; refuse = k in ("huge-x", "huge-y", "other-field", "mixed")
    if k in ("ints", "negative-ints", "huge-x", "huge-y", "mixed"):
        t = [("s", c, 0, c) for c in "xy"]; t = [mulc(q, -1) for q in t] if k[0] == "n" else t
        it = [Y.long(c, q, huge=k == "huge-" + c) for c, q in zip("xy", t)]
        if k == "mixed": it[1] = Y.fe("y", fp)[0]
        args.append(Y.tuple("xy", it)); want = ("made from", "xy", t[0], t[1])
    elif k in ("elements", "other-field"):
        f = fp if k == "elements" else Y.D.nfp
        a, av = Y.fe("x", f); b, bv = Y.fe("y", f); args.append(Y.tuple("xy", [a, b])); want = ("made from", "xy", ("int", av), ("int", bv))
    elif k in ("str", "bytes"):
        o_, b = Y.text("t", "PyUnicode_Type" if k == "str" else "PyBytes_Type"); args.append(o_)
        want = ("made from", k, b, ("s", "len t", 0, "len") if k == "bytes" else None)
    t = Y.tuple("args", args); o_ = Y.make("new point", "ECPointType"); bad = None; n = 0
    for v, s in Y.call(Y.slot(Y.S[0], "ECPointType", "tp_init"), [o_, t, ZERO]):
        if refuse:
            n += 1
            if v == ZERO: bad = "a point is made from arguments that could not be converted"
            continue
        if v != ZERO:
            if k not in ("str", "bytes"): bad = "the construction fails"
            continue
        n += 1; V, c = Y.rd_pt(o_, s); W = canon(Y.it, PT({}) if want is None else pl.base(want, Y.D.nfp), s)
        if not eqpt(V, W):
            if k in ("str",) and len(V.d) == 1 and list(V.d)[0][:3] == want[:3]: continue
            bad = f"the point is {V!r}, not {W!r}"
        elif c != cv: bad = "the point belongs to another curve object"
    return out(Y.D, bad, n)


# ------------------------------------------------------------------ curves
COEF = {"ws": ("a", "b"), "ed": ("c", "d"), "mo": ("B", "A"), "te": ("a", "d")}
MAKE = {"ws": "ShortWeierstrass", "ed": "Edwards", "mo": "Montgomery", "te": "TwistedEdwards"}


def cv_attr(prog, kind, a):
    Y = Py(prog, kind); pc, cv = Y.curve("c1"); name = COEF[kind][int(a) - 1] if a in "12" else a; s0 = Y.S[0]
    b = Y.D.obj(s0, "name", kind="input"); Y.share(b)
    nm = Y.make("attribute name", "PyUnicode_Type", buf=b)
    def strcmp(it, I, aa, st):
        x = [it.cstring(q, st) if q != b else name.encode() for q in aa[:2]]
        return C(0 if x[0] == x[1] else 1)
    Y.it.models["strcmp"] = strcmp; bad = None; n = 0
    val = lambda z: zrd(Y.it, None, z, s0)
    want = {"p": val(Y.D.zp["p"]), "n": val(Y.D.zp["n"]), "h": val(Y.D.zp["h"]), "bits": C(31), "1": val(Y.D.zp["1"]), "2": val(Y.D.zp["2"])}
    for v, s in Y.call(Y.slot(s0, "ECurveType", "tp_getattro"), [pc, nm]):
        if v == ZERO: bad = f"the attribute {name} is refused"; continue
        n += 1
        if a == "G":
            if tn(s, v) != "PyTuple_Type": return Y.D, "und", f"result {v}"
            for i, c in ((0, "Gx"), (1, "Gy")):
                z = py.long_of(s, py.item(s, v, i))
                if not samez(Y, z, val(Y.D.zp[c]), s): bad = f"item {i} of G is {z}, not {c}"
            continue
        z = py.long_of(s, v)
        if z is None: return Y.D, "und", f"result {v}"
        if not samez(Y, z, want[a], s): bad = f"the attribute {name} is {z}, not {want[a]}"
    return out(Y.D, bad, n)


def samez(Y, z, w, s):
    if z == w: return True
    f = lambda t: t[1] if t[0] == "int" else red(t, Y.D.fp)
    return z is not None and z[0] == "int" and eqfe(f(z), f(w))


def cv_new(prog, kind):
    Y = Py(prog, kind); names = ["p", COEF[kind][0] + "1", COEF[kind][1] + "2", "n", "h", "gx", "gy"]; setter = SETTER[kind][0]
    t = [("s", q, 0, q) for q in names]; a = [Y.long(q, z, lo=0) for q, z in zip(names, t)] + [Y.long("bits", C(77))]
    got = []
    for k2 in KINDS:
        def m(it, I, aa, st, nm=SETTER[k2][0]):
            s2 = st.copy(); st.ghost["set"] = (nm, aa[0], [zrd(it, I, q, st) for q in aa[1:8]], num(aa[8]))
            return [(ZERO, st), (C(-1), s2)]
        Y.it.models[SETTER[k2][0]] = m
    Y.it.models["mpECurve_clear"] = lambda it, I, aa, st: None
    bad = None; n = 0; f = Y.method("ECurveType", MAKE[kind])
    for v, s in Y.call(f, [ZERO, Y.tuple("args", a)]):
        g = s.ghost.get("set")
        if v == ZERO:
            if g is not None: bad = "a curve the library accepts is refused"
            continue
        if tn(s, v) != "ECurveType": return Y.D, "und", f"result {v}"
        n += 1
        if g is None: bad = "a curve is returned though the library refused the parameters"; continue
        if g[0] != setter: bad = f"{MAKE[kind]} uses {g[0]}"
        elif g[1][1] != v[1]: bad = "another curve object is set"
        else:
            for q, z, w in zip(names, g[2], t):
                if z != w: bad = f"{q} is passed as {z}"
            if g[3] != C(77): bad = f"bits is passed as {g[3]}"
    return out(Y.D, bad, n)


def cv_cmp(prog, kind, op, k):
    Y = Py(prog, kind); a, _ = Y.curve("c1")
    if k == "equal": b, _ = Y.curve("c2")
    else:
        z = Y.D.obj(Y.S[0], "h2", 16); Y.share(z)
        for s in Y.S: zwr(Y.it, None, z, add(zrd(Y.it, None, Y.D.zp["h"], s), ONE), s)
        b, _ = Y.curve("c2", h=z)
    return compare(Y, "ECurveType", a, b, op, k == "equal")


def cv_valid(prog):
    Y = Py(prog); a, cv = Y.curve("c1"); x, y = (Y.long(c, lo=0) for c in "xy"); bad = None; n = 0
    def m(it, I, aa, st):
        s2 = st.copy()
        for s, r in ((st, 1), (s2, 0)): s.ghost["pc"] = (aa[0], zrd(it, I, aa[1], s), zrd(it, I, aa[2], s), r)
        return [(ONE, st), (ZERO, s2)]
    Y.it.models["mpECurve_point_check"] = m
    for v, s in Y.call(Y.method("ECurveType", "PointIsValid"), [a, Y.tuple("args", [x, y])]):
        g = s.ghost.get("pc"); r = verdict(v)
        if r is None or g is None: return Y.D, "und" if v != ZERO else "bad", f"result {v}"
        n += 1
        if g[0] != cv or g[1:3] != (("s", "x", 0, "x"), ("s", "y", 0, "y")): bad = f"the library is asked about {g[1]}, {g[2]}"
        elif r != bool(g[3]): bad = f"the answer {g[3]} of the library is returned as {r}"
    return out(Y.D, bad, n)


# ------------------------------------------------------------------ ciphertexts
def elg(prog, m):
    Y = Py(prog); c = Y.curve("c1"); T = "ECElgamalCiphertextType"; D = Y.D; it = Y.it; s0 = Y.S[0]
    co = prog.offsets("_mpECElgamalCiphertext_t"); ct = prog.offsets("ECElgamalCiphertext")
    part = lambda o_, f: ("p", o_[1], C(ct["ctxt"][0] + co[f][0]))
    a, av = Y.point("A", c); b, bv = Y.point("B", c)
    def pts(o_, s): return [canon(it, pl.pt_read(it, None, part(o_, f), s), s) for f in "CD"]
    def init(p, q): return D.dos("mpECP_init", [p, q], Y.S)
    o_ = Y.make("ciphertext", T)
    if m not in ("new", "encrypt"):
        for f, nm in (("C", "U"), ("D", "V")):
            Y.S = init(part(o_, f), c[1])
            for s in Y.S: pl.pt_write(it, None, part(o_, f), canon(it, pl.base(nm, D.nfp), s), c[1], s)
        for s in Y.S: s.put(o_[1], C(ct["cv"][0]), 8, c[0]); s.put(o_[1], C(ct["ready"][0]), 4, ONE)
    bad = None; n = 0
    if m == "new":
        for v, s in Y.call(Y.slot(s0, T, "tp_init"), [o_, Y.tuple("args", [a, b]), ZERO]):
            if v != ZERO: bad = "the construction fails"; continue
            n += 1; V = pts(o_, s)
            for f, x, w in zip("CD", V, (av, bv)):
                if not eqpt(x, canon(it, w, s)): bad = f"{f} is {x!r}, not {w!r}"
    elif m == "encrypt":
        def enc(it, I, aa, st):
            s2 = st.copy(); st.ghost["enc"] = tuple(canon(it, pl.pt_read(it, I, q, st), st) for q in aa[1:3]) + (aa[0],); return [(ZERO, st), (C(-1), s2)]
        it.models["mpECElgamal_init_encrypt"] = enc
        for v, s in Y.call(Y.method(T, "encrypt"), [ZERO, Y.tuple("args", [a, b]), ZERO]):
            g = s.ghost.get("enc")
            if v == ZERO:
                if g is not None: bad = "the ciphertext is refused"
                continue
            if g is None: bad = "a ciphertext is returned though encryption failed"; continue
            n += 1
            if not (eqpt(g[0], canon(it, av, s)) and eqpt(g[1], canon(it, bv, s))): bad = f"the key is {g[0]!r} and the plaintext {g[1]!r}"
            elif g[2][1] != v[1]: bad = "another object is filled"
    elif m.startswith("decrypt"):
        k, kv = Y.fe("k") if m == "decrypt-fe" else operand(Y, "int", "k")
        def dec(it, I, aa, st):
            s2 = st.copy(); f = ferd(it, I, aa[1], st)
            st.ghost["dec"] = (f, aa[2]); pl.pt_write(it, I, aa[0], pl.base("plaintext", D.nfp), c[1], st); return [(ZERO, st), (C(-1), s2)]
        it.models["mpECElgamal_init_decrypt"] = dec
        for v, s in Y.call(Y.method(T, "decrypt"), [o_, k]):
            g = s.ghost.get("dec")
            if v == ZERO:
                if g is not None: bad = "the plaintext is refused"
                continue
            if g is None: bad = "a plaintext is returned though decryption failed"; continue
            n += 1
            if not eqfe(g[0], kv): bad = f"the key is {g[0]!r}, not {kv!r}"
            elif g[1][1] != o_[1]: bad = "another ciphertext is decrypted"
            elif not eqpt(Y.rd_pt(v, s)[0], pl.base("plaintext", D.nfp)): bad = "the result is not the plaintext"
    else:
        b_ = D.obj(s0, "name", kind="input"); Y.share(b_); nm = Y.make("attribute name", "PyUnicode_Type", buf=b_)
        it.models["strcmp"] = lambda it, I, aa, st: C(0 if len({it.cstring(q, st) if q != b_ else m.encode() for q in aa[:2]}) == 1 else 1)
        w = pl.base({"C": "U", "D": "V"}[m], D.nfp)
        for v, s in Y.call(Y.slot(s0, T, "tp_getattro"), [o_, nm]):
            if v == ZERO: bad = f"the attribute {m} is refused"; continue
            if tn(s, v) != "ECPointType": return D, "und", f"result {v}"
            n += 1; V, _ = Y.rd_pt(v, s)
            if not eqpt(V, canon(it, w, s)): bad = f"the attribute {m} is {V!r}, not {w!r}"
    return out(D, bad, n)


# ------------------------------------------------------------------ signatures
SIG = tuple(f"{a}:{b}" for a in ("sign-fe", "sign-int", "sign-negative-int", "verify") for b in ("bytes", "str")) + ("new:bytes", "new:str", "scheme", "str", "AsBytes")


def ecdsa(prog, k):
    Y = Py(prog); D = Y.D; it = Y.it; c = Y.curve("c1"); s0 = Y.S[0]; op, _, form = k.partition(":")
    so, go, ho = (prog.offsets(t) for t in ("ECDSASignatureScheme", "ECDSASignature", "_mpECDSASignatureScheme_t"))
    fnew = Y.make("hash function", "PyFunction_Type"); dig = Y.long("digest size", C(32))
    d = Y.make("dictionary", "PyDict_Type", items={b"new": fnew, b"digest_size": dig}); mod = Y.make("hash module", "PyModule_Type", dict=d)
    sch = Y.make("scheme", "ECDSASignatureSchemeType"); ssp = ("p", sch[1], C(so["sscheme"][0]))
    def sinit(it, I, a, st):
        s2 = st.copy(); o_ = a[2]
        for s, r in ((st, 0), (s2, -1)): s.ghost["scheme"] = (a[0], a[1], s.get(o_[1], o_[2]), num(s.get(o_[1], add(o_[2], C(8)))), r)
        o_ = st.w(a[0][1]); st.put(a[0][1], a[0][2], 8, a[1]); return [(ZERO, st), (C(-1), s2)]
    it.models["mpECDSASignatureScheme_init"] = sinit
    for f in ("mpECDSASignatureScheme_clear", "mpECDSASignature_clear"): it.models[f] = lambda it, I, a, st: None
    f = Y.slot(s0, "ECDSASignatureSchemeType", "tp_init"); bad = None; n = 0
    if op == "scheme":
        for v, s in Y.call(f, [sch, Y.tuple("args", [c[0], mod]), ZERO]):
            g = s.ghost.get("scheme")
            if v != ZERO:
                if g is not None and g[4] == 0: bad = "a scheme the library accepts is refused"
                continue
            n += 1
            if g is None or g[4] != 0: bad = "a scheme is made though the library refused"
            elif g[0] != ssp or g[1] != c[1] or g[3] != C(32): bad = f"the scheme is made with {g[1]}, digest size {g[3]}"
        return out(D, bad, n)
    R = [(v, s) for v, s in D.do(f, [sch, Y.tuple("init args", [c[0], mod]), ZERO], Y.S) if v == ZERO and not el.infeasible(s)]
    if not R: return D, "und", "no scheme"
    Y.S = [s for _, s in R]; hf = Y.S[0].ghost["scheme"][2]
    for s in Y.S:
        for p in Y.made: s.put(p[1], C(0), 8, C(py.START))
    if hf[0] != "fn": return D, "und", f"hash function {hf}"
    sig = Y.make("signature", "ECDSASignatureType"); sp = ("p", sig[1], C(go["sig"][0])); msg, buf = Y.text("message", "PyUnicode_Type" if form == "str" else "PyBytes_Type")
    ln = C(40)
    for s in Y.S: s.heap[msg[1]].meta["len"] = ln
    if op not in ("new",):
        for s in Y.S: s.put(sig[1], C(go["ss"][0]), 8, sch); s.put(sig[1], C(go["ready"][0]), 4, ONE)
    def hashed(it, st, mp, what):
        h = ("I", "hash buffer"); st.heap[h] = Obj("malloc", None, "hash buffer"); st.heap[h].meta["nonnull"] = True
        r = [e.st for e in it.call(D.fn(hf[1]), [("p", h, ZERO), mp, ln], st)]
        for s in r:
            m = s.ghost.pop("digest", None); m = s.heap[m[1]].meta.get("of", m) if m is not None else None
            s.ghost["sig"] = what + (m,)
        return [q for s in r for q in ((ZERO, s), (C(-1), s.copy()))]
    if op.startswith("sign"):
        kk, kv = Y.fe("k") if op == "sign-fe" else operand(Y, "int" if op == "sign-int" else "-int", "k")
        it.models["mpECDSASignature_init_Sign"] = lambda it, I, a, st: hashed(it, st, a[3], (a[0], a[1], ferd(it, I, a[2], st), num(a[4])))
        for v, s in Y.call(Y.method("ECDSASignatureSchemeType", "Sign"), [sch, Y.tuple("args", [kk, msg])]):
            g = s.ghost.get("sig")
            if v == ZERO: continue
            if g is None: bad = "a signature is returned though none was made"; continue
            if tn(s, v) != "ECDSASignatureType": return D, "und", f"result {v}"
            n += 1
            if g[0] != ("p", v[1], C(go["sig"][0])): bad = "another signature object is filled"
            elif g[1] != ssp: bad = "another scheme signs"
            elif not eqfe(g[2], kv) or g[2].fp != D.nfp: bad = f"the key is {g[2]!r}, not {kv!r}"
            elif g[3] != ln: bad = f"the length of the message is {g[3]}"
            elif g[4] != msg: bad = "another message is hashed"
        return out(D, bad, n)
    if op == "verify":
        a, av = Y.point("A", c)
        it.models["mpECDSASignature_verify_cmp"] = lambda it, I, q, st: hashed(it, st, q[2], (q[0], canon(it, pl.pt_read(it, I, q[1], st), st), num(q[3])))
        seen = set()
        for v, s in Y.call(Y.method("ECDSASignatureType", "Verify"), [sig, Y.tuple("args", [a, msg])]):
            g = s.ghost.get("sig"); r = verdict(v)
            if r is None or g is None: return D, "und" if v != ZERO else "bad", f"result {v}"
            n += 1; seen.add(r)
            if g[0] != sp: bad = "another signature is verified"
            elif not eqpt(g[1], canon(it, av, s)): bad = "another key is used"
            elif g[2] != ln: bad = f"the length of the message is {g[2]}"
            elif g[3] != msg: bad = "another message is hashed"
        if not bad and seen != {True, False}: bad = f"accepted and refused signatures are both reported {seen}"
        return out(D, bad, n)
    if op == "new":
        def imp(kind):
            def m(it, I, a, st):
                s2 = st.copy()
                for s, r in ((st, 0), (s2, -1)): s.ghost["imp"] = (kind, a[0], a[1], a[2], num(a[3]) if kind == "bytes" else None, r)
                return [(ZERO, st), (C(-1), s2)]
            return m
        for q in ("bytes", "str"): it.models["mpECDSASignature_init_import_" + q] = imp(q)
        for v, s in Y.call(Y.slot(s0, "ECDSASignatureType", "tp_init"), [sig, Y.tuple("args", [sch, msg]), ZERO]):
            g = s.ghost.get("imp")
            if v != ZERO:
                if g is not None and g[5] == 0: bad = "a signature the library accepts is refused"
                continue
            n += 1
            if g is None or g[5] != 0: bad = "a signature is made though the library refused"
            elif g[0] != form or g[1] != sp or g[2] != ssp or g[3] != buf or g[4] not in (None, ln): bad = f"the library is given {g[:5]}"
        return out(D, bad, n)
    def exp(it, I, a, st):
        o_ = ("I", "exported"); st.heap[o_] = Obj("malloc", None, "exported"); st.heap[o_].meta["nonnull"] = True; q = ("p", o_, ZERO)
        st.heap[o_].cells[("text", ZERO)] = (0, ("signature", a[0])); st.heap[o_].meta["text"] = a[0]
        if len(a) > 1: st.put(a[1][1], a[1][2], 8, ln)
        return q
    it.models["mpECDSASignature_export_str"] = it.models["mpECDSASignature_export_bytes"] = exp
    f = Y.slot(s0, "ECDSASignatureType", "tp_str") if op == "str" else Y.method("ECDSASignatureType", "AsBytes")
    for v, s in Y.call(f, [sig, ZERO]):
        if v == ZERO: bad = "the operation fails"; continue
        n += 1; m = s.heap[v[1]].meta
        if op == "str" and tn(s, v) != "PyUnicode_Type" or op != "str" and tn(s, v) != "PyBytes_Type": bad = f"the result is a {tn(s, v)}"
        elif op == "str" and "fmt" in m and (m["fmt"][0] != b"%s" or m["fmt"][1][0] != ("p", ("I", "exported"), ZERO)): bad = "the text is not the exported one"
        elif op != "str" and (m.get("text") != ("signature", sp) or m.get("len") != ln): bad = "the bytes are not the exported ones"
    return out(D, bad, n)
