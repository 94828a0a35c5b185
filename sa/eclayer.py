"""The layer above scalar multiplication: multiplying a point by a scalar multiplies its coefficients.

Coefficients are rational functions over the residues of the group order.  The affine x coordinate of a
combination is an atom named by the combination; branches on it being neutral are tracked as facts."""
from terms import *
from poly import *
from absint import num, Obj
from llir import Violation, AnalysisBroken
import models, ptlayer as pl
from models import ferd, fewr, zrd, zwr, ptr, red, fmul, fadd, zero_fork, field_ptr, M
from ptlayer import PT, O, pt_read, pt_write, pt_curve, padd, pmul


def eqfe(a, b):
    """equal as rational functions"""
    an, ad = (a.n, a.d) if a is not None else (Poly(), ONEP)
    bn, bd = (b.n, b.d) if b is not None else (Poly(), ONEP)
    return (an * bd - bn * ad).is_zero()


def eqpt(V, W):
    return all(eqfe(V.d.get(k), W.d.get(k)) for k in set(V.d) | set(W.d))


def negpt(V): return PT({k: FE(c.n.scale(-1), c.d, c.fp) for k, c in V.d.items()})


def solved(st):
    """variables the path's equations determine (equations with a variable of coefficient +-1)"""
    env = {}; nz = st.ghost.get("nz", frozenset())
    def strip(p):
        """divide out a common factor known to be nonzero"""
        if not p.d: return p
        ms = list(p.d); com = dict(ms[0])
        for m in ms[1:]:
            mm = dict(m); com = {v: min(e, mm[v]) for v, e in com.items() if v in mm}
        com = {v: e for v, e in com.items() if Poly.var(v) in nz}
        if not com: return p
        return Poly({tuple((v, e - com.get(v, 0)) for v, e in m if e > com.get(v, 0)): c for m, c in p.d.items()})
    for p in sorted(st.ghost.get("zr", ()), key=repr):
        p = strip(p.subst(env) if env else p)
        for m, c in sorted(p.d.items(), key=lambda x: repr(x[0])):
            if c in (1, -1) and len(m) == 1 and m[0][1] == 1 and sum(any(v == m[0][0] for v, _ in mm) for mm in p.d) == 1:
                r = (p - Poly({m: c})).scale(-c); v = m[0][0]
                env = {k: x.subst({v: r}) for k, x in env.items()}; env[v] = r; break
    return env


def under(V, st):
    env = solved(st) if st is not None else {}
    if not env: return V
    f = lambda p: p.subst(env) if any(v in env for v in p.vars()) else p
    out = {}
    for k, c in V.d.items():
        n, d = f(c.n), f(c.d)
        out[k] = c if d.is_zero() else FE(n, d, c.fp)
    return PT(out)


def relations(V, st):
    """replace base points that the path's facts express by others (combinations known to be neutral)"""
    if st is None: return V
    nz = st.ghost.get("nz", frozenset()); rel = []
    def apply(V):
        for k, W in rel:
            if k not in V.d: continue
            q = fmul(V.d[k], FE(W.d[k].d, W.d[k].n, W.d[k].fp))
            V = padd(V, PT({b: fmul(c, q) for b, c in W.d.items()}), -1)
            V = PT({b: c for b, c in V.d.items() if b != k and not c.n.is_zero()})
        return V
    for t in sorted((t for t, r in st.rng.items() if isinstance(t, tuple) and t and t[0] == "ptn" and r[0] >= 1), key=repr):
        W = apply(under(t[1], st))
        for b in sorted(W.d, reverse=True):
            c = W.d[b]
            if c.n.is_zero(): continue
            if c.n.is_const() or c.n in nz or -c.n in nz or (len(c.n.d) == 1 and all(Poly.var(v) in nz for v, _ in next(iter(c.n.d)))):
                rel.append((b, W)); break
    return apply(V)


def infeasible(st):
    """do the equations of the path contradict its inequations?"""
    env = solved(st)
    return bool(env) and any(p.subst(env).is_zero() for p in st.ghost.get("nz", ()))


def canon(it, V, st=None):
    """one object per group element"""
    V = PT({k: c for k, c in relations(under(V, st), st).d.items() if not c.n.is_zero()})
    for W in it.ec_seen:
        if eqpt(V, W): return W
    it.ec_seen.append(V); return V


def canonx(it, V, ct, st=None):
    V = canon(it, V, st)
    if ct in (3, 5): return V      # on (twisted) Edwards curves -P has another x
    W = negpt(V)
    for X in it.ec_seen:
        if X is V: return V
        if eqpt(W, X): return X
    return V


def is_neutral(it, V, st):
    """[(neutral?, state)]"""
    V = canon(it, V, st)
    if V.zero(): return [(True, st)]
    W = negpt(V)
    if len(V.d) == 1:
        (b, c), = V.d.items()
        if b in it.pt_nonzero: return zero_fork(it, c.n, st)
    for X in it.ec_seen:
        if X is V: break
        if eqpt(W, X): V = X; break
    t = ("ptn", V); lo, hi = st.interval(t)
    if lo >= 1: return [(True, st)]
    if hi <= 0 and lo >= 0: return [(False, st)]
    s2 = st.copy(); st.rng[t] = (1, 1, frozenset()); s2.rng[t] = (0, 0, frozenset())
    return [(True, st), (False, s2)]


def order_of(it, p, st):
    cv = pt_curve(it, p, st)
    return zrd(it, None, ("p", cv[1], add(cv[2], C(it.pt_off["cvn"]))), st)


def m_mul(mpz):
    def f(it, I, a, st):
        n = order_of(it, a[1], st); nfp = field_ptr(n)
        k = red(zrd(it, I, a[2], st), nfp) if mpz else ferd(it, I, a[2], st)
        if k.fp != nfp:
            it.aborts.append((I, st, list(it.stack))); return []
        V = pt_read(it, I, a[1], st); cv = pt_curve(it, a[1], st)
        R = canon(it, PT({b: fmul(FE(c.n, c.d, nfp), k) for b, c in V.d.items()}), st)
        out = []
        for z, s in is_neutral(it, R, st):
            pt_write(it, I, a[0], O if z else R, cv, s)
            if not z: s.rng[("ptn", R)] = (0, 0, frozenset())
            out.append((None, s))
        return out
    return f


def m_bin(sign):
    def f(it, I, a, st):
        out = []
        for s0 in pl.same_curve(it, I, a[1], a[2], st):
            V = canon(it, padd(pt_read(it, I, a[1], s0), pt_read(it, I, a[2], s0), sign), s0); cv = pt_curve(it, a[1], s0)
            for z, s in is_neutral(it, V, s0):
                pt_write(it, I, a[0], O if z else V, cv, s); out.append((None, s))
                if not z: s.rng[("ptn", V)] = (0, 0, frozenset())
        return out
    return f


def m_un(f):
    def g(it, I, a, st):
        V = canon(it, f(pt_read(it, I, a[1], st)), st); cv = pt_curve(it, a[1], st); out = []
        for z, s in is_neutral(it, V, st):
            pt_write(it, I, a[0], O if z else V, cv, s); out.append((None, s))
            if not z: s.rng[("ptn", V)] = (0, 0, frozenset())
        return out
    return g


def m_cmp(it, I, a, st):
    ca, cb = pt_curve(it, a[0], st), pt_curve(it, a[1], st); out = []
    sts = [st]
    if ca != cb:
        sts = []
        for e in it.call(it.p.funcs["mpECurve_cmp"], [ca, cb], st):
            r = it.truth(it.icmp("ne", num(e.ret), ZERO, e.st), e.st)
            if r: out.append((ONE, e.st))
            else: sts.append(e.st)
    for s in sts:
        V = padd(pt_read(it, I, a[0], s), pt_read(it, I, a[1], s), -1)
        for z, s1 in is_neutral(it, V, s): out.append((ZERO if z else ONE, s1))
    return out


def neutral_xy(it, c, ct):
    """the neutral element of (twisted) Edwards curves is a finite point; elsewhere its coordinates are unspecified"""
    if ct in (3, 5): return ZERO if c == "x" else ("s", "y of the neutral element", 0, "y0")
    return ("s", c + " of the neutral element", 0, c + "0")


def m_affx(c):
    def f(it, I, a, st):
        V = pt_read(it, I, a[1], st); ct = pl.curve_type(it, pt_curve(it, a[1], st), st)
        if V.zero(): zwr(it, I, a[0], neutral_xy(it, c, ct), st); return None
        V = canonx(it, V, ct, st) if c == "x" else canon(it, V, st)
        zwr(it, I, a[0], ("ec" + c, V), st)
    return f


def m_affxf(c):
    g = m_affx(c)
    def f(it, I, a, st):
        V = pt_read(it, I, a[1], st); cv = pt_curve(it, a[1], st); ct = pl.curve_type(it, cv, st)
        fp = st.get(cv[1], add(cv[2], C(it.pt_off["cvfp"])))
        if V.zero(): t = neutral_xy(it, c, ct)
        else: t = ("ec" + c, canonx(it, V, ct, st) if c == "x" else canon(it, V, st))
        fewr(it, I, a[0], red(t, fp), st)
    return f


def hashmodel(hsz, log="log"):
    def f(it, I, a, st):
        oid, off = ptr(a[0]); sz = st.r(oid).meta.get("size")
        if sz is not None and sz[0] == "c" and off[0] == "c" and sz[1] - off[1] < hsz:
            raise Violation(f"the digest of {hsz} bytes is written to a buffer of {sz[1] - off[1]} bytes{pl.at(it, I)}")
        for i in range(hsz): st.put(oid, add(off, C(i)), 1, ("u", 8, ("hash", a[1], num(a[2]), i)))
        st.ghost["log"] = st.ghost.get("log", ()) + (("hash", a[1], num(a[2])),)
    return f


def m_import(it, I, a, st):
    cnt, order, size, endian, nails, src = num(a[1]), num(a[2]), num(a[3]), num(a[4]), num(a[5]), a[6]
    if cnt[0] != "c" or size != ONE or nails != ZERO or order not in (ONE, C(-1)): return M["__gmpz_import"](it, I, a, st)
    oid, off = ptr(src); t = ZERO; n = cnt[1]
    for i in range(n):
        v = st.get(oid, add(off, C(i)))
        if v is None and st.zero_at(oid, add(off, C(i)), 1): v = ZERO
        if v is None:
            sz = st.r(oid).meta.get("size")
            if sz is not None and sz[0] == "c" and off[0] == "c" and off[1] + i >= sz[1]:
                raise Violation(f"byte {i} of {n} is read beyond the end of a buffer of {sz[1]} bytes{pl.at(it, I)}")
            if st.r(oid).freed: raise Violation(f"bytes are read from a released buffer{pl.at(it, I)}")
            return M["__gmpz_import"](it, I, a, st)
        if v[0] == "c": v = C(v[1] % 256)
        w = n - 1 - i if order == ONE else i
        t = add(t, mulc(v, 256 ** w))
    zwr(it, I, a[0], t, st)


def m_rand(it, I, a, st):
    z = zrd(it, I, a[1], st); k = st.cnt.get("rand", 0); st.cnt["rand"] = k + 1
    fewr(it, I, a[0], FE(Poly.var(("rand", k, z)), ONEP, field_ptr(z)), st)


EC = dict(pl.POINT)
EC.update({"mpECP_scalar_mul": m_mul(False), "mpECP_scalar_mul_mpz": m_mul(True), "mpECP_scalar_base_mul": m_mul(False),
           "mpECP_scalar_base_mul_mpz": m_mul(True), "mpECP_scalar_base_mul_setup": lambda it, I, a, st: None,
           "mpECP_add": m_bin(1), "mpECP_sub": m_bin(-1), "mpECP_double": m_un(lambda V: padd(V, V)), "mpECP_neg": m_un(negpt),
           "mpECP_cmp": m_cmp, "mpz_set_mpECP_affine_x": m_affx("x"), "mpz_set_mpECP_affine_y": m_affx("y"),
           "mpFp_set_mpECP_affine_x": m_affxf("x"), "mpFp_set_mpECP_affine_y": m_affxf("y"),
           "__gmpz_import": m_import, "mpFp_urandom": m_rand})
for k in ("mpz_set_mpFp", "mpFp_tstbit", "mpFp_cswap", "mpFp_set_mpz", "mpFp_set_mpz_fp", "mpFp_set"): EC.pop(k, None)


def setup(D):
    pl.setup(D); it = D.it; it.ec_seen = []
    c = D.p.offsets("_mpECurve_t"); it.pt_off["cvn"] = c["n"][0]


def eccurve(prog, kind, n, p, extra=None):
    """a curve with concrete field prime and group order; coefficients are residues of the order"""
    from scen import Curve
    ex = dict(EC); ex.update(extra or {})
    D = Curve(prog, kind, {}, mk=False, extra=ex); it = D.it
    it.vals = None; it.generic = False
    D.fp = ("p", ("F", C(p)), ZERO); D.nfp = ("p", ("F", C(n)), ZERO); st = D.S[0]
    for nm, v in (("p", p), ("n", n)): st.heap[D.zp[nm][1]].cells[("z", ZERO)] = (16, C(v))
    setup(D); it.unroll = 3; it.maxsteps = 3000000
    D.cv, D.S = D.mkcurve("cv", D.S, bits=C(p.bit_length()))
    G, D.S = D.point("G", D.S, neutral="blank")
    D.S = D.dos("mpECP_set_mpz", [G, D.zp["Gx"], D.zp["Gy"], D.cv], D.S); pl.register(D, G, "G", D.S, D.nfp)
    it.aborts.clear()
    return D


def scalar(D, S, name, fp=None, term=None):
    """a field element object holding an unknown residue of the order (or the given element)"""
    fp = fp or D.nfp; p = D.obj(S[0], name, kind="malloc")
    f = term if term is not None else FE(Poly.var(("s", name, 0, name)), ONEP, fp)
    for s in S:
        s.heap[p[1]] = S[0].heap[p[1]]; o = s.w(p[1]); o.cells[("fe", ZERO)] = (16, f); o.cells[C(16)] = (8, f.fp); o.res[("fe", ZERO)] = "live"
    return p, f


def nonzero(it, f, st):
    """is the element known to be nonzero (True), known to be zero (False), or neither (None)?"""
    env = solved(st)
    if env and f.n.subst(env).is_zero(): return False
    r = zero_fork(it, f.n, st.copy())
    return (not r[0][0]) if len(r) == 1 else None


def feasible(g): return (x for x in g if not infeasible(x[1]))
