"""The layer above the group law: a point is a formal combination of base points.

The coordinates and the neutral flag of a point live in the library's own struct cells, as pieces that
name the combination they belong to, so that copying, swapping and selecting code is interpreted as
written.  Only mpECP_add/double/sub/neg are replaced by their meaning (property P01), and reading a
point whose pieces do not belong together is reported.  Coefficients are exact integers, bits of
scalars and elements of the scalar field."""
from terms import *
from poly import *
from absint import num, off_delta, Obj
import models
from llir import Violation
from models import ferd, fewr, zrd, zwr, ptr, fint, red, fadd, fmul, FPOFF, fp_of, field_ptr, F, M

NONE = None


# ------------------------------------------------------------------ bits
def is_bit(a): return a[0] == "bit" or a[0] == "b2i"


def bits_of(t, acc=None):
    """bit atoms occurring in a term / field element / polynomial (not inside the definition of a bit)"""
    if acc is None: acc = {}
    if isinstance(t, FE): bits_of(t.n, acc); bits_of(t.d, acc)
    elif isinstance(t, Poly):
        for v in t.vars(): bits_of(v, acc)
    elif isinstance(t, tuple) and t:
        if t[0] == "bit": acc[t] = 1
        elif t[0] == "lin":
            for a, _ in t[2]: bits_of(a, acc)
        elif t[0] == "prod":
            for a in t[1]: bits_of(a, acc)
        elif t[0] in ("ptx", "pty", "ptz", "ptn", "s", "p"): pass
        else:
            for x in t[1:]:
                if isinstance(x, (tuple, FE, Poly)): bits_of(x, acc)
    return acc


def subst(it, t, env):
    """value of a term under an assignment of bits"""
    if isinstance(t, FE):
        if not bits_of(t): return t
        if t.d == ONEP and len(t.n.d) == 1:
            (m, c), = t.n.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "mux":
                x = m[0][0]; v = subst(it, x[1], env)
                if v == ONE: return subst(it, x[2], env)
                if v == ZERO: return subst(it, x[3], env)
        def pol(p): return p.subst({v: Poly.const(env[v][1]) for v in p.vars() if v in env})
        return FE(pol(t.n), pol(t.d), t.fp)
    if not isinstance(t, tuple) or not t: return t
    if t in env: return env[t]
    k = t[0]
    if k == "lin":
        c = t[1]; d = {}
        for a, m in t[2]:
            x = subst(it, a, env)
            if x[0] == "c": c += x[1] * m
            else:
                xc, xd = lin_parts(x); c += xc * m
                for q, e in xd.items(): d[q] = d.get(q, 0) + e * m
        return mk_lin(c, d)
    if k == "prod":
        r = ONE
        for a in t[1]: r = mul(r, subst(it, a, env))
        return r
    if k == "mux":
        v = subst(it, t[1], env)
        if v == ONE: return subst(it, t[2], env)
        if v == ZERO: return subst(it, t[3], env)
        return ("mux", v, subst(it, t[2], env), subst(it, t[3], env))
    if k == "sel":
        v = it.truth(subst(it, t[1], env), EMPTY(it))
        if v is not None: return subst(it, t[2] if v else t[3], env)
        return t
    if k == "b2i":
        v = it.truth(subst(it, t[1], env), EMPTY(it))
        return t if v is None else C(int(v))
    if k == "cmp" and len(t) == 3:
        return ("cmp", t[1], subst(it, t[2], env))
    if k == "not":
        return ("not", subst(it, t[1], env))
    if k in ("band", "bor", "bxor") and len(t) == 3:
        return it.binop({"band": "and", "bor": "or", "bxor": "xor"}[k], T64, subst(it, t[1], env), subst(it, t[2], env), EMPTY(it))
    if k in ("umod", "udiv"):
        a, b = subst(it, t[1], env), subst(it, t[2], env)
        if a[0] == "c" and b[0] == "c" and b[1]: return C(a[1] % b[1] if k == "umod" else a[1] // b[1])
        return (k, a, b)
    return t


class _T: k = "i"; n = 64
T64 = _T()


def EMPTY(it):
    from absint import State
    if not hasattr(it, "_empty"): it._empty = State()
    return it._empty


# ------------------------------------------------------------------ points
class PT:
    """formal combination: {base name: FE coefficient}"""
    __slots__ = ("d", "_h")

    def __init__(self, d): self.d = {k: v for k, v in d.items() if not v.n.is_zero()}; self._h = None
    def __eq__(a, b): return isinstance(b, PT) and a.d == b.d
    def __hash__(a):
        if a._h is None: a._h = hash(frozenset(a.d.items()))
        return a._h
    def __repr__(a): return " + ".join(f"({c!r})*{b}" for b, c in sorted(a.d.items())) or "neutral"
    def zero(a): return not a.d


O = PT({})
LIMIT = 4000


def bitred(p):
    if all(e == 1 for m in p.d for v, e in m): return p
    d = {}
    for m, c in p.d.items():
        mm = tuple((v, 1 if v[0] == "bit" else e) for v, e in m); x = d.get(mm, 0) + c
        if x: d[mm] = x
        else: d.pop(mm, None)
    return Poly(d)


def padd(a, b, s=1):
    d = dict(a.d)
    for k, c in b.d.items():
        c = FE(c.n.scale(s), c.d, c.fp)
        d[k] = fadd(d[k], c) if k in d else c
    for k, c in d.items():
        if len(c.n.d) > LIMIT: raise models_broken("coefficient too large")
    return PT(d)


def pmul(a, c): return PT({k: fmul(v, c) for k, v in a.d.items()})


def models_broken(m):
    from llir import AnalysisBroken
    return AnalysisBroken(m)


def base(name, fp=None): return PT({name: FE(ONEP, ONEP, fp)})


def curve_type(it, cv, st):
    oid, off = ptr(cv); v = st.get(oid, add(off, C(it.pt_off["cvtype"])))
    return v[1] if v is not None and v[0] == "c" else None


def single(f):
    """the only variable of the element, when it is one"""
    if isinstance(f, FE) and f.d == ONEP and len(f.n.d) == 1:
        (m, c), = f.n.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return None


class Mixed(Violation): pass
class Unknown(Exception): pass
class Uninit(Violation): pass


def leaf(it, x, y, z, n, ct):
    vs = [single(f) for f in (x, y, z)]
    named = [v for v in vs if isinstance(v, tuple) and v[0] in ("ptx", "pty", "ptz")]
    if n[0] == "c" and n[1] != 0: return O
    if len(named) == 3:
        if [v[0] for v in vs] != ["ptx", "pty", "ptz"] or len({v[1] for v in vs}) != 1: raise Mixed("its coordinates come from different points")
        V = vs[0][1]
        want = flag(it, V, ct)
        if n != want: raise Mixed("its neutral flag does not belong to its coordinates")
        return V
    k = it.pt_bases.get((x, y, z))
    if k is not None:
        if n != ZERO: raise Mixed("its neutral flag does not belong to its coordinates")
        return k
    if ct in (3, 5) and x.n.is_zero() and z.n == ONEP and z.d == ONEP: return O
    if named: raise Mixed("its coordinates come from different points")
    for i, f in enumerate((x, y, z)):
        v = single(f)
        if v and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "fe": raise Uninit("it was never given a value")
    known = {f for t in it.pt_bases for f in t}
    if n[0] in ("c", "ptn") and all(f in known or f.n.is_const() and f.d == ONEP for f in (x, y, z)):
        raise Mixed("its coordinates and its neutral flag do not belong to one point")
    raise Unknown("point value not recognised")


def flag(it, V, ct):
    if ct in (3, 5): return ZERO
    if V.zero(): return ONE
    if len(V.d) == 1:
        (b, c), = V.d.items()
        if c.d == ONEP and c.n.is_const() and abs(c.n.cval()) == 1 and b in it.pt_nonzero: return ZERO
    return ("ptn", V)


def interp_table(leafs, bits):
    """multilinear interpolation: leafs[mask] -> PT"""
    n = len(bits); a = list(leafs)
    for i in range(n):
        for m in range(len(a)):
            if m >> i & 1: a[m] = padd(a[m], a[m ^ (1 << i)], -1)
    r = O
    for m, v in enumerate(a):
        if v.zero(): continue
        mono = Poly({tuple(sorted([(bits[i], 1) for i in range(n) if m >> i & 1], key=lambda x: repr(x[0]))): 1})
        v = PT({k: FE(bitred(c.n * mono), c.d, c.fp) for k, c in v.d.items()})
        r = padd(r, v)
    return r


def pt_read(it, I, p, st, what="operand"):
    oid, off = ptr(p); o = it.pt_off
    if st.r(oid).freed: it.event("use-after-free", I, f"point in freed object {st.r(oid).name} read", st)
    obits = sorted(bits_of(off), key=repr)
    if len(obits) > 10: raise models_broken("table index depends on too many bits")
    res = []
    for mask in range(1 << len(obits)):
        env = {b: C(mask >> i & 1) for i, b in enumerate(obits)}
        of = subst(it, off, env)
        res.append(pt_read1(it, I, ("p", oid, of), st, what))
    return interp_table(res, obits) if obits else res[0]


def at(it, I):
    if I is None: return ""
    from llir import rel
    f, l = it.p.loc(I); return f" at {rel(f)}:{l}"


def pt_read1(it, I, p, st, what):
    oid, off = ptr(p); o = it.pt_off
    ob = st.r(oid)
    cells = [ob.cells.get(("fe", add(off, C(o[c])))) for c in "xyz"]
    if any(c is None for c in cells):
        n = ob.cells.get(add(off, C(o["is_neutral"])))
        if off[0] != "c": raise models_broken("point at an unknown address")
        if not (n and n[1][0] == "c" and n[1][1]):
            raise Violation(f"point {ob.name}+{off[1]} is read{at(it, I)} before a value was stored in it")
        return O
    x, y, z = (c[1] for c in cells)
    n = ob.cells.get(add(off, C(o["is_neutral"])))
    n = n[1] if n else ("uninit", oid, off)
    cv = pt_curve(it, p, st); ct = curve_type(it, cv, st)
    bits = {}
    for f in (x, y, z, n): bits_of(f, bits)
    bits = sorted(bits, key=repr)
    if len(bits) > 9: raise models_broken("selection depends on too many bits")
    res = []
    for mask in range(1 << len(bits)):
        env = {b: C(mask >> i & 1) for i, b in enumerate(bits)}
        try: res.append(leaf(it, subst(it, x, env), subst(it, y, env), subst(it, z, env), subst(it, n, env), ct))
        except Mixed as e:
            raise Violation(f"point {ob.name} read{at(it, I)} is inconsistent: {e}")
        except Uninit as e:
            raise Violation(f"point {ob.name} is read{at(it, I)} before a value was stored in it")
        except Unknown as e:
            raise models_broken(str(e))
    return interp_table(res, bits) if bits else res[0]


def pt_curve(it, p, st):
    oid, off = ptr(p)
    ob = sorted(bits_of(off), key=repr)
    if ob and len(ob) < 11:
        vs = {st.get(oid, add(subst(it, off, {b: C(m >> i & 1) for i, b in enumerate(ob)}), C(it.pt_off["cvp"]))) for m in range(1 << len(ob))}
        if len(vs) == 1 and None not in vs: return vs.pop()
    v = st.get(oid, add(off, C(it.pt_off["cvp"])))
    return v if v is not None else ("p", ("L", ("nocv", oid, off)), ZERO)


def drop_table(st, p):
    """the table of multiples is released with every assignment"""
    if not isinstance(p, tuple) or p[0] != "p" or p[1] not in st.heap or p[1][0] != "M" or st.heap[p[1]].freed: return
    o = st.w(p[1]); o.freed = True
    for k in list(o.res): o.res[k] = "dead"
    for c, (sz, v) in list(o.cells.items()):
        if c[0] not in ("fe", "z"): drop_table(st, v)


def pt_write(it, I, p, V, cv, st):
    oid, off = ptr(p); o = it.pt_off; ct = curve_type(it, cv, st)
    coid, coff = ptr(cv); fp = st.get(coid, add(coff, C(o["cvfp"])))
    ob = st.r(oid)
    if I is not None and off[0] == "c" and ob.kind in ("malloc", "alloca"):
        k = ("fe", add(off, C(o["x"])))
        if k not in ob.res and k not in ob.cells: it.event("uninit-write", I, f"point {ob.name}+{off[1]} written without initialisation", st)
    for c in "xyz": fewr(it, I, ("p", oid, add(off, C(o[c]))), FE(Poly.var(("pt" + c, V)), ONEP, fp), st)
    st.put(oid, add(off, C(o["is_neutral"])), 4, flag(it, V, ct))
    st.put(oid, add(off, C(o["cvp"])), 8, cv)
    b = st.get(oid, add(off, C(o["base_bits"])))
    if b is not None and b != ZERO:
        drop_table(st, st.get(oid, add(off, C(o["base_pt"]))))
        st.put(oid, add(off, C(o["base_bits"])), 4, ZERO); st.put(oid, add(off, C(o["base_pt"])), 8, ZERO)


def same_curve(it, I, a, b, st):
    """states on which the two curves are equal; the others abort"""
    ca, cb = pt_curve(it, a, st), pt_curve(it, b, st)
    if ca == cb: return [st]
    out = []
    for e in it.call(it.p.funcs["mpECurve_cmp"], [ca, cb], st):
        r = it.truth(it.icmp("ne", num(e.ret), ZERO, e.st), e.st)
        if r is not True: out.append(e.st)
        if r is not False: it.aborts.append((I, e.st, list(it.stack)))
    return out


def m_add(sign):
    def f(it, I, a, st):
        out = []
        for s in same_curve(it, I, a[1], a[2], st):
            V = padd(pt_read(it, I, a[1], s), pt_read(it, I, a[2], s), sign)
            pt_write(it, I, a[0], V, pt_curve(it, a[1], s), s); out.append((None, s))
        return out
    return f


def m_double(it, I, a, st):
    V = pt_read(it, I, a[1], st); pt_write(it, I, a[0], padd(V, V), pt_curve(it, a[1], st), st)


def m_neg(it, I, a, st):
    V = pt_read(it, I, a[1], st); pt_write(it, I, a[0], padd(O, V, -1), pt_curve(it, a[1], st), st)


# ------------------------------------------------------------------ scalars as bits
def nbits(fp):
    if isinstance(fp, tuple) and fp[0] == "p" and fp[1][0] == "F" and fp[1][1][0] == "c": return fp[1][1][1].bit_length()
    return None


def bsum(f):
    """integer representative of a field element, written in its bits when the modulus is known"""
    t = fint(f)
    if t[0] == "c": return t
    n = nbits(f.fp)
    if n is None: return t
    return mk_lin(0, {("bit", t, C(i)): 1 << i for i in range(n)})


def unbsum(t, fp):
    """the field element whose complete bit sum this is"""
    if t[0] != "lin" and t[0] != "bit": return None
    c, d = lin_parts(t)
    if c: return None
    src = {a[1] for a in d if a[0] == "bit"}
    if len(src) != 1 or any(a[0] != "bit" for a in d): return None
    s = src.pop()
    if s[0] == "int" and s[1].fp == fp and bsum(s[1]) == t: return s[1]
    return None


def pred(z, fp):
    f = unbsum(z, fp)
    return f if f is not None else red(z, fp)


def m_get(it, I, a, st): zwr(it, I, a[0], bsum(ferd(it, I, a[1], st)), st)


def m_tst(it, I, a, st):
    f = ferd(it, I, a[0], st); t = bsum(f); i = num(a[1])
    return tst(it, t, i, st)


def tst(it, t, i, st):
    if i[0] == "c" and i[1] >= 0:
        qr = split2(t, 1 << i[1], st)
        if qr:
            qr = split2(qr[0], 2, st)
            if qr: return qr[1]
        if t[0] == "c": return C(t[1] >> i[1] & 1)
    return ("bit", t, i)


def split2(t, n, st):
    """(t div n, t mod n) of a nonnegative sum, n a power of two; None when not exact"""
    c, d = lin_parts(t)
    if c < 0 or any(k < 0 for k in d.values()): return None
    hi, lo = {}, {}; mx = c % n
    for a, k in d.items():
        l, h = st.interval(a)
        if l < 0: return None
        if k % n == 0: hi[a] = k // n
        else: lo[a] = k; mx += k * h
    if mx >= n: return None
    return mk_lin(c // n, hi), mk_lin(c % n, lo)


def m_cswap(it, I, a, st):
    x, y = ferd(it, I, a[0], st), ferd(it, I, a[1], st); models.same_fp(it, I, x, y, st)
    sw = num(a[2])
    if sw[0] == "c":
        if sw[1]: fewr(it, I, a[0], y, st); fewr(it, I, a[1], x, st)
        return None
    if sw[0] == "bit" or sw[0] in ("lin", "mux", "b2i"):
        lo, hi = st.interval(sw)
        if bits_of(sw) and 0 <= lo and hi <= 1:
            if x == y: return None
            m = lambda p, q: FE(Poly.var(("mux", sw, p, q)), ONEP, x.fp)
            fewr(it, I, a[0], m(y, x), st); fewr(it, I, a[1], m(x, y), st); return None
    return F["mpFp_cswap"](it, I, a, st)


def m_set(it, I, a, st):
    oid, off = ptr(a[1]); ob = sorted(bits_of(off), key=repr)
    if not ob: return F["mpFp_set"](it, I, a, st)
    def build(i, env):
        if i == len(ob): return ferd(it, I, ("p", oid, subst(it, off, env)), st)
        v0, v1 = build(i + 1, {**env, ob[i]: ZERO}), build(i + 1, {**env, ob[i]: ONE})
        return v0 if v0 == v1 else FE(Poly.var(("mux", ob[i], v1, v0)), ONEP, v0.fp)
    if len(ob) > 9: raise models_broken("table index depends on too many bits")
    fewr(it, I, a[0], build(0, {}), st)


def m_setz(it, I, a, st): fewr(it, I, a[0], pred(zrd(it, I, a[1], st), field_ptr(zrd(it, I, a[2], st))), st)
def m_setzf(it, I, a, st): fewr(it, I, a[0], pred(zrd(it, I, a[1], st), a[2]), st)


POINT = {"mpECP_add": m_add(1), "mpECP_sub": m_add(-1), "mpECP_double": m_double, "mpECP_neg": m_neg,
         "mpz_set_mpFp": m_get, "mpFp_tstbit": m_tst, "mpFp_cswap": m_cswap, "mpFp_set": m_set,
         "mpFp_set_mpz": m_setz, "mpFp_set_mpz_fp": m_setzf,
         "__gmpz_tstbit": lambda it, I, a, st: tst(it, zrd(it, I, a[0], st), num(a[1]), st),
         "mpECurve_point_check": lambda it, I, a, st: ONE}


def setup(D):
    it = D.it; o = {k: v[0] for k, v in D.p.offsets("_p_mpECP_t").items()}
    c = D.p.offsets("_mpECurve_t"); o["cvtype"] = c["type"][0]; o["cvfp"] = c["fp"][0]
    it.pt_off = o; it.pt_bases = {}; it.pt_nonzero = set()


def register(D, p, name, S, fp=None):
    """the value now stored in point p is the base point `name`"""
    it = D.it
    for s in S:
        h = s.heap[p[1]]
        it.pt_bases[tuple(h.cells[("fe", add(p[2], C(it.pt_off[c])))][1] for c in "xyz")] = base(name, fp)
    it.pt_nonzero.add(name)


def facts(it, V, st):
    """the combination under what the path knows about the bits"""
    env = {}
    for b, (lo, hi, ex) in st.rng.items():
        if b[0] == "bit" and lo == hi: env[b] = Poly.const(int(lo))
    zr = st.ghost.get("zr", frozenset())
    def pol(p):
        e = {}
        for v in p.vars():
            if v in env: e[v] = env[v]
            elif v[0] == "bit" and v[1][0] == "int" and (v[1][1].n in zr or -v[1][1].n in zr): e[v] = Poly()
        return p.subst(e) if e else p
    dead = set()
    for b, (lo, hi, ex) in st.rng.items():
        if b[0] == "ptn" and lo >= 1 and len(b[1].d) == 1:
            (k, c), = b[1].d.items()
            if c.n.is_const(): dead.add(k)
    return PT({k: FE(pol(c.n), c.d, c.fp) for k, c in V.d.items() if k not in dead})


def congruent(V, W, n):
    """equal modulo the group order"""
    for k in set(V.d) | set(W.d):
        a, b = V.d.get(k), W.d.get(k)
        x = (a.n if a else Poly()) - (b.n if b else Poly())
        if (a and a.d != ONEP) or (b and b.d != ONEP): return False
        if any(c % n for c in x.d.values()): return False
    return True
