"""Models of GMP, libc and (for the layers above field.c) of the mpFp_* primitives.
Each model returns a value, or a list of (value, state) outcomes."""
import random
from fractions import Fraction
from terms import *
from poly import *
from absint import num, off_delta, Obj, mentions_uninit

Q = (1 << 521) - 1          # prime, = 3 mod 4: polynomial identities are tested at points of GF(Q)


# ---------------------------------------------------------------- valuations
class Val:
    """one assignment of GF(Q) values to atoms; derived atoms (square roots) evaluated on demand"""

    def __init__(self, base, seed): self.v = dict(base); self.rnd = random.Random(seed); self.bad = set(); self.seed = seed

    def atom(self, a):
        if a in self.v: return self.v[a]
        if isinstance(a, tuple) and a[0] == "sqrt":
            x = self.fe(a[1])
            if x is None or pow(x, (Q - 1) // 2, Q) == Q - 1: r = None
            else: r = pow(x, (Q + 1) // 4, Q)
        elif isinstance(a, tuple) and a[0] == "red":
            r = self.int(a[1])
        else:
            r = random.Random(repr(a) + str(self.seed)).randrange(1, Q)
        self.v[a] = r
        return r

    def int(self, t):
        if t[0] == "c": return t[1] % Q
        if t[0] == "lin":
            s = t[1]
            for a, k in t[2]:
                x = self.int(a)
                if x is None: return None
                s += k * x
            return s % Q
        if t[0] == "prod":
            s = 1
            for a in t[1]:
                x = self.int(a)
                if x is None: return None
                s = s * x % Q
            return s
        if t[0] == "int": return self.fe(t[1])
        return self.atom(t)

    def poly(self, p):
        s = 0
        for m, c in p.d.items():
            t = c % Q if isinstance(c, int) else c.numerator * pow(c.denominator, -1, Q) % Q
            for v, e in m:
                x = self.atom(v)
                if x is None: return None
                t = t * pow(x, e, Q) % Q
            s += t
        return s % Q

    def fe(self, f):
        n = self.poly(f.n); d = self.poly(f.d)
        if n is None or d is None: return None
        if d == 0: return None
        return n * pow(d, -1, Q) % Q


class Valuations:
    def __init__(self, vals): self.vals = vals

    def zero(self, p):
        """True: identically zero on the scenario; False: generically nonzero; None: no sample"""
        if p.is_zero(): return True
        if p.is_const(): return False
        rs = [v.poly(p) for v in self.vals]
        rs = [r for r in rs if r is not None]
        if len(rs) < 2: return None
        return all(r == 0 for r in rs)


# ---------------------------------------------------------------- field elements
def fe_const(n, fp): return FE(Poly.const(n), ONEP, fp)


def simp(n, d):
    if n.is_zero(): return n, ONEP
    if d.is_const():
        c = d.cval()
        if c != 1: n = n.scale(Fraction(1) / c if not isinstance(c, Fraction) else 1 / c); n = Poly({m: (int(k) if isinstance(k, Fraction) and k.denominator == 1 else k) for m, k in n.d.items()})
        return n, ONEP
    if n == d: return ONEP, ONEP
    # cancel common monomial factor
    ms = list(n.d) + list(d.d)
    com = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m); com = {v: min(e, dm.get(v, 0)) for v, e in com.items() if dm.get(v, 0)}
        if not com: break
    if com:
        def dv(p):
            o = {}
            for m, c in p.d.items():
                mm = tuple((v, e - com.get(v, 0)) for v, e in m if e - com.get(v, 0))
                o[mm] = c
            return Poly(o)
        n, d = dv(n), dv(d)
        if d.is_const(): return simp(n, d)
    return n, d


def fadd(a, b, s=1):
    if a.d == b.d: n, d = simp(a.n + b.n.scale(s), a.d)
    elif a.d == ONEP: n, d = simp(a.n * b.d + b.n.scale(s), b.d)
    elif b.d == ONEP: n, d = simp(a.n + (b.n * a.d).scale(s), a.d)
    else: n, d = simp(a.n * b.d + (b.n * a.d).scale(s), a.d * b.d)
    return FE(n, d, a.fp)


def fmul(a, b):
    n1, d2 = simp(a.n, b.d); n2, d1 = simp(b.n, a.d)
    n, d = simp(n1 * n2, d1 * d2)
    return FE(n, d, a.fp)


def fpow(a, k):
    return FE(a.n ** k, a.d ** k, a.fp)


FPOFF = C(16)


def ptr(v):
    if v[0] == "p": return v[1], v[2]
    return ("L", v), ZERO


def fp_of(it, st, oid, off):
    o = st.r(oid)
    c = o.cells.get(add(off, FPOFF))
    if c: return c[1]
    v = ("p", ("L", ("s", ("mem", oid, add(off, FPOFF)), 0, "fp")), ZERO)
    o = st.w(oid); o.cells[add(off, FPOFF)] = (8, v)
    return v


def ferd(it, I, p, st):
    oid, off = ptr(p)
    o = st.r(oid)
    c = o.cells.get(("fe", off))
    if c: return c[1]
    z = o.cells.get(("z", off))
    fp = fp_of(it, st, oid, off)
    if z:     # an mpz written through the element's integer part
        return FE(Poly.var(("red", z[1], fp)), ONEP, fp)
    if o.freed: it.event("use-after-free", I, f"element of freed object {o.name} read", st)
    if o.res.get(("fe", off)) == "dead":
        it.event("use-after-clear", I, f"field element {o.name}+{offs(off)} used after it was cleared", st)
    elif o.kind in ("alloca", "malloc") and ("fe", off) not in o.cells:
        it.event("uninit-read", I, f"field element {o.name}+{offs(off)} read before any value was stored in it", st)
    v = FE(Poly.var(("s", ("fe", oid, off), o.meta.get("ver", 0), o.name)), ONEP, fp)
    o = st.w(oid); o.cells[("fe", off)] = (16, v)
    return v


def offs(off): return str(off[1]) if off[0] == "c" else "?"


def fewr(it, I, p, f, st):
    oid, off = ptr(p)
    o = st.r(oid)
    if o.freed: it.event("use-after-free", I, f"write of element of freed object {o.name}", st)
    if o.res.get(("fe", off)) == "dead":
        it.event("use-after-clear", I, f"field element {o.name}+{offs(off)} written after it was cleared", st)
    o = st.w(oid)
    o.cells.pop(("z", off), None)
    if off[0] != "c":
        st.kill(o, off, 24)
    o.cells[("fe", off)] = (16, f)
    o.cells[add(off, FPOFF)] = (8, f.fp)
    if it.on_write: it.on_write(it, I, oid, off, "fe", f, st)


def zrd(it, I, p, st):
    oid, off = ptr(p)
    o = st.r(oid)
    if o.freed: it.event("use-after-free", I, f"integer of freed object {o.name} read", st)
    if o.res.get(("z", off)) == "dead": it.event("use-after-clear", I, f"integer {o.name} used after it was cleared", st)
    if oid[0] == "F" and off == ZERO: return oid[1]
    return it.zread(st, oid, off, I)


def zwr(it, I, p, t, st):
    oid, off = ptr(p)
    o = st.r(oid)
    if o.freed: it.event("use-after-free", I, f"integer of freed object {o.name} written", st)
    if o.res.get(("z", off)) == "dead": it.event("use-after-clear", I, f"integer {o.name} written after it was cleared", st)
    o = st.w(oid)
    if off[0] != "c": st.kill(o, off, 16)
    o.cells.pop(("fe", off), None)
    o.cells.pop(add(off, C(4)), None)
    o.cells[("z", off)] = (16, t)
    if it.on_write: it.on_write(it, I, oid, off, "z", t, st)


def res_init(it, I, p, kind, st):
    oid, off = ptr(p)
    o = st.w(oid)
    if o.res.get((kind, off)) == "live":
        it.event("leak-reinit", I, f"{kindname(kind)} {o.name}+{offs(off)} initialised again while still live", st, obj=o.name)
    o.res[(kind, off)] = "live"
    o.cells.pop(("fe", off), None); o.cells.pop(("z", off), None)
    if oid[0] == "A" and off[0] == "c": pass


def res_clear(it, I, p, kind, st):
    oid, off = ptr(p)
    o = st.w(oid)
    s = o.res.get((kind, off))
    if s == "dead": it.event("double-clear", I, f"{kindname(kind)} {o.name}+{offs(off)} cleared twice", st, obj=o.name)
    elif s is None and (o.kind == "alloca" or (o.kind == "malloc" and not o.meta.get("loopinit"))):
        it.event("clear-uninit", I, f"{kindname(kind)} {o.name}+{offs(off)} cleared without having been initialised", st, obj=o.name)
    if o.freed: it.event("use-after-free", I, f"clear inside freed object {o.name}", st)
    o.res[(kind, off)] = "dead"
    o.cells.pop(("fe", off), None); o.cells.pop(("z", off), None)


def kindname(k): return {"fe": "field element", "z": "integer", "pt": "point", "cv": "curve", "sig": "signature", "ct": "ciphertext"}.get(k, k)


M = {}


def model(*names):
    def deco(f):
        for n in names: M[n] = f
        return f
    return deco


# ---------------------------------------------------------------- GMP integers
@model("__gmpz_init")
def _(it, I, a, st): res_init(it, I, a[0], "z", st); zwr(it, I, a[0], ZERO, st)


@model("__gmpz_init2")
def _(it, I, a, st): res_init(it, I, a[0], "z", st); zwr(it, I, a[0], ZERO, st)


@model("__gmpz_init_set")
def _(it, I, a, st): v = zrd(it, I, a[1], st); res_init(it, I, a[0], "z", st); zwr(it, I, a[0], v, st)


@model("__gmpz_init_set_ui", "__gmpz_init_set_si")
def _(it, I, a, st): res_init(it, I, a[0], "z", st); zwr(it, I, a[0], num(a[1]), st)


@model("__gmpz_clear")
def _(it, I, a, st): res_clear(it, I, a[0], "z", st)


def m_each(one):
    def f(it, I, a, st):
        for p in a:
            if p == ZERO: break
            it.models[one](it, I, [p], st)
    return f


M["__gmpz_inits"] = m_each("__gmpz_init"); M["__gmpz_clears"] = m_each("__gmpz_clear")


@model("__gmpz_realloc", "__gmpz_realloc2")
def _(it, I, a, st): return ("p", ("L", st.fresh(("realloc",), "")), ZERO)


@model("__gmpz_set")
def _(it, I, a, st): zwr(it, I, a[0], zrd(it, I, a[1], st), st)


@model("__gmpz_set_ui", "__gmpz_set_si")
def _(it, I, a, st): zwr(it, I, a[0], num(a[1]), st)


@model("__gmpz_swap")
def _(it, I, a, st):
    x, y = zrd(it, I, a[0], st), zrd(it, I, a[1], st); zwr(it, I, a[0], y, st); zwr(it, I, a[1], x, st)


@model("__gmpz_set_str", "__gmpz_init_set_str")
def _(it, I, a, st):
    """0 and the parsed value, or -1 with the target unchanged"""
    if I.x["callee"][1].endswith("init_set_str"): res_init(it, I, a[0], "z", st); zwr(it, I, a[0], ZERO, st)
    base = a[2]
    s = it.cstring(a[1], st)
    if s is not None:
        try:
            v = int(s.decode(), base[1] if base[0] == "c" else 10)
            zwr(it, I, a[0], C(v), st); return C(0)
        except ValueError: return C(-1)
    ok = st; bad = st.copy()
    zwr(it, I, a[0], ("parse", a[1], base), ok)
    r = ("parsest", a[1], base)
    out = []
    if ok.assume0("eq", r): out.append((C(0), ok))
    if it.parse_may_fail:
        if bad.assume0("eq", add(r, C(1))): out.append((C(-1), bad))
    return out


def zbin(op):
    def f(it, I, a, st):
        x, y = zrd(it, I, a[1], st), zrd(it, I, a[2], st)
        zwr(it, I, a[0], op(x, y), st)
    return f


def zbin_ui(op):
    def f(it, I, a, st):
        x, y = zrd(it, I, a[1], st), num(a[2])
        zwr(it, I, a[0], op(x, y), st)
    return f


M["__gmpz_add"] = zbin(lambda x, y: add(x, y)); M["__gmpz_add_ui"] = zbin_ui(lambda x, y: add(x, y))
M["__gmpz_sub"] = zbin(lambda x, y: sub(x, y)); M["__gmpz_sub_ui"] = zbin_ui(lambda x, y: sub(x, y))
M["__gmpz_ui_sub"] = lambda it, I, a, st: zwr(it, I, a[0], sub(num(a[1]), zrd(it, I, a[2], st)), st)
M["__gmpz_mul"] = zbin(lambda x, y: mul(x, y)); M["__gmpz_mul_ui"] = M["__gmpz_mul_si"] = zbin_ui(lambda x, y: mul(x, y))
M["__gmpz_mul_2exp"] = zbin_ui(lambda x, y: mulc(x, 1 << y[1]) if y[0] == "c" else ("zshl", x, y))


def zmod(x, m, st=None):
    if x[0] == "c" and m[0] == "c" and m[1] > 0: return C(x[1] % m[1])
    if st is not None and m[0] == "c" and m[1] > 0:
        r = st.split2(x, m[1])
        if r: return r[1]
    if x[0] == "umod" and x[2] == m: return x
    if x[0] == "int" and x[1].fp == ("p", ("F", m), ZERO): return x
    return ("umod", x, m)


M["__gmpz_mod"] = M["__gmpz_fdiv_r"] = M["__gmpz_tdiv_r"] = lambda it, I, a, st: zwr(it, I, a[0], zmod(zrd(it, I, a[1], st), zrd(it, I, a[2], st), st), st)


def z_mod_ui(it, I, a, st):
    x, y = zrd(it, I, a[1], st), num(a[2]); r = zmod(x, y, st); zwr(it, I, a[0], r, st); return r


M["__gmpz_fdiv_r_ui"] = M["__gmpz_tdiv_r_ui"] = M["__gmpz_mod_ui"] = z_mod_ui
M["__gmpz_fdiv_ui"] = M["__gmpz_tdiv_ui"] = lambda it, I, a, st: zmod(zrd(it, I, a[0], st), num(a[1]), st)


def zdiv(it, I, a, st):
    x, y = zrd(it, I, a[1], st), num(a[2])
    r = zmod(x, y, st); zwr(it, I, a[0], it.binop("udiv", TY64, x, y, st), st)
    return r


class _T: k = "i"; n = 64
TY64 = _T()
M["__gmpz_tdiv_q_ui"] = M["__gmpz_fdiv_q_ui"] = zdiv
M["__gmpz_tdiv_q"] = M["__gmpz_fdiv_q"] = zbin(lambda x, y: ("udiv", x, y))


def zshr(it, I, a, st):
    x, y = zrd(it, I, a[1], st), num(a[2])
    if y[0] == "c": zwr(it, I, a[0], it.binop("udiv", TY64, x, C(1 << y[1]), st), st)
    else: zwr(it, I, a[0], ("udiv", x, mk_lin(0, {("pow2", y): 1})), st)


M["__gmpz_tdiv_q_2exp"] = M["__gmpz_fdiv_q_2exp"] = zshr


@model("__gmpz_tdiv_r_2exp", "__gmpz_fdiv_r_2exp")
def _(it, I, a, st):
    x, y = zrd(it, I, a[1], st), num(a[2])
    zwr(it, I, a[0], zmod(x, C(1 << y[1]), st) if y[0] == "c" else ("umod", x, mk_lin(0, {("pow2", y): 1})), st)


@model("__gmpz_powm", "__gmpz_powm_ui")
def _(it, I, a, st):
    x = zrd(it, I, a[1], st); e = num(a[2]) if I.x["callee"][1].endswith("ui") else zrd(it, I, a[2], st); m = zrd(it, I, a[3], st)
    zwr(it, I, a[0], ("powm", x, e, m), st)


@model("__gmpz_invert")
def _(it, I, a, st):
    x, m = zrd(it, I, a[1], st), zrd(it, I, a[2], st)
    r = ("invok", x, m); bad = st.copy()
    zwr(it, I, a[0], ("zinv", x, m), st)
    out = []
    if st.assume0("ne", r): out.append((r, st))
    if bad.assume0("eq", r): out.append((C(0), bad))
    return out


@model("__gmpz_neg")
def _(it, I, a, st): zwr(it, I, a[0], mulc(zrd(it, I, a[1], st), -1), st)


@model("__gmpz_abs")
def _(it, I, a, st):
    x = zrd(it, I, a[1], st); lo, hi = st.interval(x)
    zwr(it, I, a[0], x if lo >= 0 else mulc(x, -1) if hi <= 0 else ("zabs", x), st)


@model("__gmpz_cmp")
def _(it, I, a, st):
    return ("sgn", sub(zrd(it, I, a[0], st), zrd(it, I, a[1], st)))


@model("__gmpz_cmp_ui", "__gmpz_cmp_si")
def _cmpui(it, I, a, st):
    return ("sgn", sub(zrd(it, I, a[0], st), num(a[1])))


M["_mpz_cmp_ui"] = M["_mpz_cmp_si"] = _cmpui


@model("__gmpz_tstbit")
def _(it, I, a, st):
    oid, off = ptr(a[0])
    z = zrd(it, I, a[0], st)
    if num(a[1]) == ZERO: return it.mkumod(z, 2)
    return ("bit", z, num(a[1]))


@model("__gmpz_get_ui")
def _(it, I, a, st):
    z = zrd(it, I, a[0], st)
    lo, hi = st.interval(z)
    if lo >= 0 and hi < 1 << 64: return z
    return ("umod", z, C(1 << 64)) if lo >= 0 else ("lowlimb", z)


@model("__gmpz_get_si")
def _(it, I, a, st):
    z = zrd(it, I, a[0], st); lo, hi = st.interval(z)
    return z if lo >= -(1 << 63) and hi < 1 << 63 else ("getsi", z)


@model("__gmpz_sizeinbase")
def _(it, I, a, st):
    z, b = zrd(it, I, a[0], st), num(a[1])
    if z[0] == "c" and b == C(2): return C(max(1, abs(z[1]).bit_length()))
    if z[0] == "c" and b == C(16): return C(max(1, (abs(z[1]).bit_length() + 3) // 4))
    return ("sizeinbase", z, b)


@model("__gmpz_import")
def _(it, I, a, st):
    # rop, count, order, size, endian, nails, op
    cnt, order, size, endian, nails, src = num(a[1]), a[2], a[3], a[4], a[5], a[6]
    if it.on_import: it.on_import(it, I, a, st)
    soid, soff = ptr(src)
    ver = buf_ver(st, soid)
    zwr(it, I, a[0], ("import", cnt, order, size, ("p", soid, soff), ver, nails), st)


def buf_ver(st, oid):
    o = st.r(oid)
    return o.meta.get("bufver", 0)


def buf_written(st, oid):
    o = st.w(oid); o.meta["bufver"] = o.meta.get("bufver", 0) + 1
    o.meta.pop("str", None)


@model("__gmpz_export")
def _(it, I, a, st):
    # rop, countp, order, size, endian, nails, op
    z = zrd(it, I, a[6], st)
    if it.on_export: it.on_export(it, I, a, z, st)
    cnt = ("bytes", z, a[3])
    if a[1] != ZERO:
        oid, off = ptr(a[1]); st.put(oid, off, 8, cnt)
    if a[0] != ZERO:
        oid, off = ptr(a[0])
        o = st.w(oid); st.kill(o, off, None); buf_written(st, oid)
        o = st.w(oid); o.cells[("d", off)] = (1, ("export", z, num(a[2]), num(a[3]), a[5]))
        return a[0]
    return ("p", ("L", st.fresh(("export",), "")), ZERO)


@model("__gmpz_jacobi", "__gmpz_legendre", "__gmpz_kronecker")
def _(it, I, a, st): return ("jacobi", zrd(it, I, a[0], st), zrd(it, I, a[1], st))


@model("__gmpz_probab_prime_p")
def _(it, I, a, st): return ("probab", zrd(it, I, a[0], st))


@model("__gmp_set_memory_functions")
def _(it, I, a, st): return None


# ---------------------------------------------------------------- libc
@model("__assert_fail", "abort", "exit", "_exit", "__assert_rtn")
def _(it, I, a, st):
    it.aborts.append((I, st, list(it.stack))); return []


@model("malloc")
def _(it, I, a, st):
    k = st.fresh((I.fn.name, I.blk, I.idx), "malloc")
    oid = ("M", k)
    o = Obj("malloc", None, f"malloc@{I.fn.name}:{it.p.loc(I)[1]}"); o.meta["size"] = num(a[0]); o.meta["nonnull"] = not it.malloc_fails
    o.meta["site"] = (I.fn.name, it.p.loc(I)[1])
    st.heap[oid] = o
    if it.malloc_fails:
        s2 = st.copy(); del s2.heap[oid]
        o.meta["nonnull"] = True
        return [(("p", oid, ZERO), st), (ZERO, s2)]
    return ("p", oid, ZERO)


@model("calloc")
def _(it, I, a, st):
    r = M["malloc"](it, I, [mul(num(a[0]), num(a[1]))], st)
    for v, s in (r if isinstance(r, list) else [(r, st)]):
        if v != ZERO: o = s.w(v[1]); o.zero = ((ZERO, 1 << 40),)
    return r


@model("free")
def _(it, I, a, st):
    if a[0] == ZERO: return None
    oid, off = ptr(a[0]); o = st.w(oid)
    if o.freed: it.event("double-free", I, f"{o.name} freed twice", st)
    if mentions_uninit(a[0]): it.event("free-uninit", I, f"free of an uninitialised pointer", st)
    if o.kind == "alloca": it.event("free-bad", I, f"free of local {o.name}", st)
    if off != ZERO: it.event("free-bad", I, f"free of an interior pointer of {o.name}", st)
    o.freed = True
    return None


@model("llvm.memset", "memset")
def _(it, I, a, st):
    oid, off = ptr(a[0]); n = num(a[2])
    o = st.w(oid)
    if o.freed: it.event("use-after-free", I, f"memset of freed object {o.name}", st)
    sz = n[1] if n[0] == "c" else None
    st.kill(o, off, sz); buf_written(st, oid); o = st.w(oid)
    if a[1] == ZERO: o.zero = o.zero + ((off, sz if sz is not None else 1 << 40),)
    o.meta["memset"] = (off, a[1], n)
    return a[0]


M["explicit_bzero"] = M["bzero"] = lambda it, I, a, st: M["memset"](it, I, [a[0], ZERO, a[1]], st)


@model("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")
def _(it, I, a, st):
    it.memcopy(I, a[0], a[1], num(a[2]), st)
    if a[0][0] == "p": buf_written(st, a[0][1])
    return a[0]


@model("strlen")
def _(it, I, a, st):
    s = it.cstring(a[0], st)
    if s is not None: return C(len(s))
    return ("strlen", a[0])


@model("strcmp")
def _(it, I, a, st):
    x, y = it.cstring(a[0], st), it.cstring(a[1], st)
    if x is not None and y is not None: return C((x > y) - (x < y))
    return ("strcmp", a[0], a[1])


@model("atexit")
def _(it, I, a, st): return C(0)


@model("printf", "fprintf", "puts", "fputs", "putchar", "fflush", "perror", "__gmp_printf", "__gmp_fprintf")
def _(it, I, a, st): return st.fresh(("io",), "")


@model("llvm.stacksave", "llvm.stackrestore", "llvm.lifetime.start", "llvm.lifetime.end", "llvm.va_start", "llvm.va_end")
def _(it, I, a, st): return ZERO


# ---------------------------------------------------------------- field layer
F = {}


def fmodel(*names):
    def deco(f):
        for n in names: F[n] = f
        return f
    return deco


def field_ptr(z): return ("p", ("F", z), ZERO)


def same_fp(it, I, a, b, st):
    if a.fp == b.fp: return
    if isinstance(a.fp, tuple) and isinstance(b.fp, tuple) and a.fp[0] == "p" and b.fp[0] == "p":
        r = it.ptreq(a.fp, b.fp, st)
        if r is True: return
        if r is not True and r is not False and it.truth(r, st): return
    it.event("field-mismatch", I, f"operands of {I.x['callee'][1]} not known to be in the same field (the callee aborts)", st)


@fmodel("_mpFp_field_lookup")
def _(it, I, a, st): return field_ptr(zrd(it, I, a[0], st))


@fmodel("mpFp_init")
def _(it, I, a, st):
    res_init(it, I, a[0], "fe", st); oid, off = ptr(a[0]); st.put(oid, add(off, FPOFF), 8, field_ptr(zrd(it, I, a[1], st)))


@fmodel("mpFp_init_fp")
def _(it, I, a, st):
    res_init(it, I, a[0], "fe", st); oid, off = ptr(a[0]); st.put(oid, add(off, FPOFF), 8, a[1])


@fmodel("mpFp_clear")
def _(it, I, a, st):
    res_clear(it, I, a[0], "fe", st); oid, off = ptr(a[0]); st.put(oid, add(off, FPOFF), 8, ZERO)


@fmodel("mpFp_set")
def _(it, I, a, st): fewr(it, I, a[0], ferd(it, I, a[1], st), st)


def red(z, fp):
    if z[0] == "int" and z[1].fp == fp: return z[1]
    c, d = lin_parts(z)
    p = Poly.const(c)
    for at, k in d.items():
        if at[0] == "int" and at[1].fp == fp and at[1].d == ONEP: p = p + at[1].n.scale(k)
        elif at[0] == "umod" and isinstance(fp, tuple) and fp[1][0] == "F" and at[2] == fp[1][1]:
            f = red(at[1], fp); p = p + f.n.scale(k)
        else: p = p + Poly.var(("red", at, fp)).scale(k)
    return FE(p, ONEP, fp)


@fmodel("mpFp_set_mpz_fp")
def _(it, I, a, st): fewr(it, I, a[0], red(zrd(it, I, a[1], st), a[2]), st)


@fmodel("mpFp_set_mpz")
def _(it, I, a, st): fewr(it, I, a[0], red(zrd(it, I, a[1], st), field_ptr(zrd(it, I, a[2], st))), st)


@fmodel("mpFp_set_ui_fp")
def _(it, I, a, st): fewr(it, I, a[0], red(num(a[1]), a[2]), st)


@fmodel("mpFp_set_ui")
def _(it, I, a, st): fewr(it, I, a[0], red(num(a[1]), field_ptr(zrd(it, I, a[2], st))), st)


@fmodel("mpz_set_mpFp")
def _(it, I, a, st): zwr(it, I, a[0], fint(ferd(it, I, a[1], st)), st)


def fint(f):
    if f.d == ONEP and f.n.is_const() and isinstance(f.n.cval(), int) and 0 <= f.n.cval() < 4: return C(f.n.cval())
    return ("int", f)


def f2(op):
    def f(it, I, a, st):
        x, y = ferd(it, I, a[1], st), ferd(it, I, a[2], st)
        same_fp(it, I, x, y, st)
        fewr(it, I, a[0], op(x, y), st)
    return f


F["mpFp_add"] = f2(lambda x, y: fadd(x, y))
F["mpFp_sub"] = f2(lambda x, y: fadd(x, y, -1))
F["mpFp_mul"] = f2(fmul)


def fui(op):
    def f(it, I, a, st):
        x = ferd(it, I, a[1], st)
        fewr(it, I, a[0], op(x, red(num(a[2]), x.fp)), st)
    return f


F["mpFp_add_ui"] = fui(lambda x, y: fadd(x, y))
F["mpFp_sub_ui"] = fui(lambda x, y: fadd(x, y, -1))
F["mpFp_mul_ui"] = fui(fmul)


@fmodel("mpFp_sqr")
def _(it, I, a, st): x = ferd(it, I, a[1], st); fewr(it, I, a[0], fmul(x, x), st)


@fmodel("mpFp_pow_ui")
def _(it, I, a, st):
    x = ferd(it, I, a[1], st); e = num(a[2])
    if e[0] == "c" and 0 <= e[1] < 64: fewr(it, I, a[0], fpow(x, e[1]), st)
    else: fewr(it, I, a[0], FE(Poly.var(("fpow", x, e)), ONEP, x.fp), st)


@fmodel("mpFp_pow_mpz")
def _(it, I, a, st):
    x = ferd(it, I, a[1], st); e = zrd(it, I, a[2], st)
    fewr(it, I, a[0], FE(Poly.var(("fpow", x, e)), ONEP, x.fp), st)


@fmodel("mpFp_neg")
def _(it, I, a, st): x = ferd(it, I, a[1], st); fewr(it, I, a[0], FE(-x.n, x.d, x.fp), st)


def zero_fork(it, p, st, known=None):
    """outcomes of 'p == 0': list of (bool, state)"""
    z = st.ghost.get("zr", frozenset()); nz = st.ghost.get("nz", frozenset())
    if p.is_zero() or p in z or -p in z: return [(True, st)]
    if p.is_const() or p in nz or -p in nz: return [(False, st)]
    if len(p.d) == 1:      # monomial of known nonzero atoms
        (m, c), = p.d.items()
        if m and all(Poly.var(v) in nz for v, e in m): return [(False, st)]
    if it.vals is not None:
        r = it.vals.zero(p)
        if r is True: return [(True, st)]
        if r is False and it.generic: return [(False, st)]
    s2 = st.copy()
    st.ghost["zr"] = z | {p}; s2.ghost["nz"] = nz | {p}
    return [(True, st), (False, s2)]


@fmodel("mpFp_inv")
def _(it, I, a, st):
    x = ferd(it, I, a[1], st); out = []
    for zero, s in zero_fork(it, x.n, st):
        if zero:
            # result is left without a defined value; nonzero status
            fewr(it, I, a[0], FE(Poly.var(("badinv", x)), ONEP, x.fp), s); out.append((C(-1), s))
        else:
            n, d = simp(x.d, x.n)
            fewr(it, I, a[0], FE(n, d, x.fp), s); out.append((C(0), s))
    return out


@fmodel("mpFp_cmp")
def _(it, I, a, st):
    x, y = ferd(it, I, a[0], st), ferd(it, I, a[1], st)
    same_fp(it, I, x, y, st)
    d = fadd(x, y, -1); out = []
    for zero, s in zero_fork(it, d.n, st):
        if zero: out.append((C(0), s))
        else:
            r = ("fcmp", x, y)
            s.assume0("ne", r); out.append((r, s))
    return out


@fmodel("mpFp_cmp_ui", "mpFp_cmp_mpz")
def _(it, I, a, st):
    x = ferd(it, I, a[0], st)
    y = red(num(a[1]), x.fp) if I.x["callee"][1].endswith("ui") else red(zrd(it, I, a[1], st), x.fp)
    d = fadd(x, y, -1); out = []
    for zero, s in zero_fork(it, d.n, st):
        if zero: out.append((C(0), s))
        else:
            r = ("fcmp", x, y); s.assume0("ne", r); out.append((r, s))
    return out


@fmodel("mpFp_sqrt")
def _(it, I, a, st):
    x = ferd(it, I, a[1], st)
    r = ("sqrtst", x); bad = st.copy(); out = []
    if st.assume0("eq", r):
        fewr(it, I, a[0], FE(Poly.var(("sqrt", x)), ONEP, x.fp), st); out.append((C(0), st))
    if bad.assume0("ne", r):
        fewr(it, I, a[0], FE(Poly.var(("badsqrt", x)), ONEP, x.fp), bad); out.append((r, bad))
    return out


@fmodel("mpFp_tstbit")
def _(it, I, a, st):
    x = ferd(it, I, a[0], st)
    if num(a[1]) == ZERO: return it.mkumod(fint(x), 2)
    return ("bit", fint(x), num(a[1]))


@fmodel("mpFp_swap")
def _(it, I, a, st):
    x, y = ferd(it, I, a[0], st), ferd(it, I, a[1], st); same_fp(it, I, x, y, st); fewr(it, I, a[0], y, st); fewr(it, I, a[1], x, st)


@fmodel("mpFp_cswap")
def _(it, I, a, st):
    x, y = ferd(it, I, a[0], st), ferd(it, I, a[1], st); same_fp(it, I, x, y, st)
    c = it.icmp("ne", num(a[2]), ZERO, st); t = it.truth(c, st); out = []
    for b in (True, False):
        if t is not None and t != b: continue
        s = st.copy()
        if not it.assume(c, b, s): continue
        if b: fewr(it, I, a[0], y, s); fewr(it, I, a[1], x, s)
        else: fewr(it, I, a[0], x, s); fewr(it, I, a[1], y, s)
        out.append((None, s))
    return out


@fmodel("mpFp_urandom")
def _(it, I, a, st):
    z = zrd(it, I, a[1], st); k = st.fresh(("urandom",), "k")
    if it.on_random: it.on_random(it, I, z, k, st)
    f = FE(Poly.var(("rand", k)), ONEP, field_ptr(z)); fewr(it, I, a[0], f, st)


@fmodel("mpz_urandom")
def _(it, I, a, st):
    z = zrd(it, I, a[1], st); k = st.fresh(("urandom",), "k")
    zwr(it, I, a[0], ("rand", k, z), st)


def setup(it):
    it.vals = None; it.generic = False; it.on_write = None; it.on_import = None; it.on_export = None
    it.on_random = None; it.parse_may_fail = True; it.malloc_fails = False
    it.mkumod = lambda z, n: z if z[0] == "umod" and z[2] == C(n) else (C(z[1] % n) if z[0] == "c" else ("umod", z, C(n)))
    return it
