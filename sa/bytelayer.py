"""Bytes and text: export forks over the byte length of the value, import reassembles it; hexadecimal digits and
the libc functions that read and print them.  A byte of the integer X is the atom ("byte", X, weight)."""
import re
from scen import *
from absint import num
from models import zrd, zwr, ptr, zero_fork, fint, zmod, offs, buf_written
from llir import Violation
from ptlayer import at


def cint(it, z):
    """one name per integer value: residues are looked up among those seen; (name, sign)"""
    if z[0] != "int": return z, 1
    f = z[1]
    if f.n.is_zero() or it.vals is not None and it.vals.zero(f.n) is True: return ZERO, 1
    if it.vals is not None:
        a = [v.fe(f) for v in it.vals.vals]
        if None not in a and len(set(a)) == 1:
            if a[0] < 16: return C(a[0]), 1
            if Q - a[0] < 16: return C(Q - a[0]), -1
    for g in it.by_seen:
        if g.fp != f.fp: continue
        for s in (1, -1):
            if it.vals is not None:
                a = [v.fe(f) for v in it.vals.vals]; b = [v.fe(g) for v in it.vals.vals]
                if None not in a and None not in b and all((x - s * y) % Q == 0 for x, y in zip(a, b)): return ("int", g), s
            elif (f.n * g.d - (g.n * f.d).scale(s)).is_zero(): return ("int", g), s
    it.by_seen.append(f); return z, 1


def width(it, z, st):
    """bytes that hold any value of z"""
    if z[0] == "c": return (z[1].bit_length() + 7) // 8
    if z[0] == "int":
        fp = z[1].fp
        for k, n in it.by_width.items():
            if k == fp: return n
        m = fp[1][1] if fp[0] == "p" and fp[1][0] == "F" else None
        if m and m[0] == "c": return (m[1].bit_length() + 7) // 8
    lo, hi = st.interval(z)
    if lo >= 0 and hi < 1 << 2000: return (int(hi).bit_length() + 7) // 8
    return None


def blens(it, z, st):
    """[(bytes of z without leading zeros, state)]"""
    if z[0] == "c": return [(width(it, z, st), st)]
    n = width(it, z, st)
    if n is None: return None
    t = ("blen", z); out = []
    if z[0] == "int": zs = zero_fork(it, z[1].n, st)
    else:
        lo, _ = st.interval(z); zs = [(False, st)] if lo > 0 or st.cmp0("ne", z) else None
        if zs is None:
            s2 = st.copy(); zs = []
            if st.assume0("eq", z): zs.append((True, st))
            if s2.assume0("ne", z): zs.append((False, s2))
    ks = range(1, n + 1) if n <= 8 else (1, 2, n // 2, n - 1, n)
    for zero, s in zs:
        for k in ((0,) if zero else ks):
            s2 = s.copy()
            if s2.assume0("eq", add(t, C(-k))): out.append((k, s2))
    return out


def m_export(it, I, a, st):
    order, size, nails = num(a[2]), num(a[3]), a[5]; z = zrd(it, I, a[6], st)
    if size != ONE or nails != ZERO or order not in (ONE, C(-1)) or a[0] == ZERO: return M["__gmpz_export"](it, I, a, st)
    zc, sg = cint(it, z)
    if sg < 0: it.by_seen.append(z[1]); zc = z
    bl = blens(it, zc, st)
    if bl is None: return M["__gmpz_export"](it, I, a, st)
    oid, off = ptr(a[0]); out = []
    for k, s in bl:
        o = s.r(oid); sz = o.meta.get("size") or (o.size is not None and C(o.size)) or None
        if off[0] == "c" and sz and sz[0] == "c" and k + off[1] > sz[1]:
            raise Violation(f"an exported number of {k} bytes is written to offset {off[1]} of a buffer of {sz[1]} bytes{at(it, I)}")
        if o.freed: raise Violation(f"bytes are written to a released buffer{at(it, I)}")
        buf_written(s, oid)
        for i in range(k):
            w = k - 1 - i if order == ONE else i
            v = C((zc[1] >> (8 * w)) & 255) if zc[0] == "c" else ("byte", zc, w)
            s.put(oid, add(off, C(i)), 1, v)
        if a[1] != ZERO: p, q = ptr(a[1]); s.put(p, q, 8, C(k))
        out.append((a[0], s))
    return out


def unbytes(t, st):
    """a sum of all the bytes of X is X"""
    c, d = lin_parts(t); by = {}
    for x, k in d.items():
        if x[0] == "byte": by.setdefault(x[1], {})[x[2]] = k
    for X, m in by.items():
        lo, hi = st.interval(("blen", X)); r = m.get(0)
        if lo == hi and r and set(m) == set(range(lo)) and all(k == r * 256 ** w for w, k in m.items()):
            for w in m: t = add(t, mulc(("byte", X, w), -m[w]))
            t = add(t, mulc(X, r))
    return t


def m_import(it, I, a, st):
    import eclayer
    r = eclayer.m_import(it, I, a, st)
    p, q = ptr(a[0]); z = st.r(p).cells.get(("z", q))
    if z is not None: zwr(it, I, a[0], numeral(unbytes(z[1], st)), st)
    return r


def numeral(t):
    """a sum of several input bytes, as one unknown"""
    c, d = lin_parts(t)
    return ("num", t) if len(d) > 1 and all(a[0] in ("u", "hex2") for a in d) else t


def parity(it, z, st):
    """[(term for z mod 2, state)]"""
    if z[0] == "c": return [(C(z[1] % 2), st)]
    zc, sg = cint(it, z)
    if zc == ZERO: return [(ZERO, st)]
    t = ("umod", zc, C(2)) if zc[0] != "c" else C(zc[1] % 2)
    if sg > 0: return [(t, st)]
    return [(ZERO if zero else sub(ONE, t), s) for zero, s in zero_fork(it, z[1].n, st)]


def parity_of(it, z, st):
    r = parity(it, z, st.copy())
    return r[0][0] if len(r) == 1 else None


def m_mod_ui(old, store):
    def f(it, I, a, st):
        d = num(a[2] if store else a[1])
        z = zrd(it, I, a[1] if store else a[0], st)
        if d != C(2) or z[0] != "int": return old(it, I, a, st)
        out = []
        for t, s in parity(it, z, st):
            if store: zwr(it, I, a[0], t, s)
            out.append((t, s))
        return out
    return f


def m_tstbit(it, I, a, st):
    z = zrd(it, I, a[0], st)
    return parity(it, z, st) if num(a[1]) == ZERO and z[0] in ("int", "c") else M["__gmpz_tstbit"](it, I, a, st)


def m_fetstbit(it, I, a, st):
    z = fint(ferd(it, I, a[0], st))
    return parity(it, z, st) if num(a[1]) == ZERO else F["mpFp_tstbit"](it, I, a, st)


def m_get_ui(it, I, a, st):
    z = zrd(it, I, a[0], st)
    if z[0] == "int": return ("umod", z, C(1 << 64))
    return M["__gmpz_get_ui"](it, I, a, st)


def m_sizeinbase(it, I, a, st):
    z, b = zrd(it, I, a[0], st), num(a[1])
    if z[0] == "c" or b not in (C(2), C(256), C(16)): return M["__gmpz_sizeinbase"](it, I, a, st)
    zc, sg = cint(it, z)
    if sg < 0: it.by_seen.append(z[1]); zc = z
    bl = blens(it, zc, st)
    if bl is None: return M["__gmpz_sizeinbase"](it, I, a, st)
    out = []
    for k, s in bl:
        if k == 0: out.append((ONE, s)); continue
        if b == C(256): out.append((C(k), s)); continue
        t = ("topbit", zc, b); w = 8 if b == C(2) else 2
        s.assume0("sge", t); s.assume0("sle", add(t, C(1 - w)))
        out.append((add(C(w * (k - 1) + 1), t), s))
    return out


def m_sqrt(it, I, a, st):
    """the square root of a known square is one of the two known roots"""
    x = ferd(it, I, a[1], st)
    if it.vals is not None:
        v = [w.fe(x) for w in it.vals.vals]
        if None not in v:
            if all(q == 0 for q in v):
                models.fewr(it, I, a[0], models.fe_const(0, x.fp), st); return ZERO
            for y in it.by_roots:
                r = [w.fe(y) for w in it.vals.vals]
                if None not in r and all((q - s * s) % Q == 0 for q, s in zip(v, r)):
                    s2 = st.copy()
                    models.fewr(it, I, a[0], y, st); models.fewr(it, I, a[0], FE(-y.n, y.d, y.fp), s2)
                    return [(ZERO, st), (ZERO, s2)]
    return F["mpFp_sqrt"](it, I, a, st)


# ---------------------------------------------------------------- hexadecimal digits
HEXD = frozenset(b"0123456789abcdefABCDEF")


def is_hex(st, c):
    """is the character known to be (True) or not to be (False) a hexadecimal digit?"""
    if c[0] == "c": return (c[1] & 255) in HEXD
    if c[0] == "hexd": return True
    r = st.bools.get(("xdigit", c))
    if r is not None: return r
    k, sg, off = st.key(c)
    lo, hi = st.interval(c); ex = st.rof(k)[2] if off == 0 and sg == 1 else frozenset()
    if lo < 0 or hi > 255: return None
    m = [v in HEXD for v in range(int(lo), int(hi) + 1) if v not in ex]
    return True if all(m) else False if not any(m) else None


def nib(v, hi):
    """one hexadecimal digit of the byte v"""
    if v[0] == "hex2": return v[1] if hi else v[2]
    if v[0] == "c":
        return C(b"0123456789ABCDEF"[(v[1] >> 4) & 15 if hi else v[1] & 15])
    return ("hexd", ("udiv", v, C(16)) if hi else ("umod", v, C(16)))


def hex2(c1, c2):
    """the value of two hexadecimal digits"""
    if c1[0] == "c" and c2[0] == "c": return C(int(chr(c1[1]) + chr(c2[1]), 16))
    if c1[0] == "hexd" and c2[0] == "hexd" and c1[1][0] == "udiv" and c2[1] == ("umod", c1[1][1], C(16)): return c1[1][1]
    return ("hex2", c1, c2)


def hex_fork(st, c):
    r = is_hex(st, c)
    if r is not None: return [(r, st)]
    s2 = st.copy(); st.bools[("xdigit", c)] = True; s2.bools[("xdigit", c)] = False
    return [(True, st), (False, s2)]


def bounds(it, I, o, off, n, what):
    sz = o.meta.get("size")
    if sz is None or sz[0] != "c" or off[0] != "c" or o.kind not in ("malloc", "input"): return
    if off[1] < 0 or off[1] + n > sz[1]: raise Violation(f"byte {off[1]} of a buffer of {sz[1]} bytes is {what}{at(it, I)}")


def on_store(it, I, p, v, ty, st):
    o = st.heap.get(p[1])
    if o is not None: bounds(it, I, o, p[2], I.fn.module.layout.size(ty), "written")
    return False


CT = {0x1000: "xdigit", 0x0800: "digit"}


def m_ctype_loc(it, I, a, st): return ("p", ("CT", 0), ZERO)


def m_isxdigit(it, I, a, st):
    out = []
    for b, s in hex_fork(st, num(a[0])): out.append((C(int(b)), s))
    return out


def on_load(it, I, p, ty, st):
    oid, off = p[1], p[2]
    if oid[0] == "CT":
        if ty.k == "ptr": return ("p", ("CT", 1), ZERO)
        c, d = lin_parts(off)
        if d and all(k % 2 == 0 for k in d.values()) and c % 2 == 0: return ("ctype", mk_lin(c // 2, {a: k // 2 for a, k in d.items()}))
        return ("ctype", C(c // 2))
    if oid[0] == "Z":
        return ("umod", oid[1], C(1 << 64)) if off == ZERO else ("limb", oid[1], off)
    o = st.heap.get(oid)
    if o is None: return None
    bounds(it, I, o, off, I.fn.module.layout.size(ty), "read")
    if ty.k == "ptr" and off[0] == "c" and off not in o.cells:
        c = o.cells.get(("z", add(off, C(-8)))) or o.cells.get(("fe", add(off, C(-8))))
        if c is not None: return ("p", ("Z", c[1] if c[1].__class__ is tuple else ("int", c[1])), ZERO)
    if oid[0] == "G" and off[0] != "c" and ty.k == "i" and ty.n == 8:
        s = o.meta.get("str"); c, d = lin_parts(off)
        if s and len(d) == 1 and c == 0:
            (x, k), = d.items()
            lo, hi = st.interval(x)
            if k == 1 and lo >= 0 and hi < len(s):
                if lo == 0 and hi == 15 and s[:16] in (b"0123456789ABCDEF", b"0123456789abcdef"): return ("hexd", x)
                return ("tab", s, x)
            if k == 1 and lo >= 0 and hi >= len(s): raise Violation(f"a table of {len(s)} characters is read beyond its end{at(it, I)}")
    return None


def chars(it, I, p, n, st):
    """n characters at p; reading beyond the text is a violation"""
    oid, off = ptr(p); out = []
    o = st.r(oid)
    if o.freed: raise Violation(f"text is read from a released buffer{at(it, I)}")
    for i in range(n):
        v = st.get(oid, add(off, C(i)))
        if v is None and st.zero_at(oid, add(off, C(i)), 1): v = ZERO
        out.append(v)
    return out


def m_strlen(it, I, a, st):
    s = it.cstring(a[0], st)
    if s is not None: return C(len(s))
    oid, off = ptr(a[0]); o = st.r(oid)
    if off[0] == "c":
        for n in range(5000):
            v = st.get(oid, add(off, C(n)))
            if v is None: break
            if v == ZERO: return C(n)
            if v[0] in ("c", "hexd", "hex2") or v[0] == "u" and st.cmp0("ne", v): continue
            break
    return ("strlen", a[0])


def m_sscanf(it, I, a, st):
    """one or more %2X conversions"""
    f = it.cstring(a[1], st)
    m = f is not None and re.fullmatch(rb"%0?2(hh|h|l)?[xX]", f)
    if not m or len(a) != 3: return st.fresh(("sscanf", I.fn.name, I.idx), "sscanf")
    c1, c2 = chars(it, I, a[0], 2, st)
    if c1 is None or c2 is None: return st.fresh(("sscanf", I.fn.name, I.idx), "sscanf")
    size = {None: 4, b"hh": 1, b"h": 2, b"l": 8}[m.group(1)]
    p, q = ptr(a[2]); out = []
    sz = st.r(p).meta.get("size")
    if sz is not None and sz[0] == "c" and q[0] == "c" and q[1] + size > sz[1]:
        raise Violation(f"a number of {size} bytes is read into offset {q[1]} of a buffer of {sz[1]} bytes{at(it, I)}")
    for h1, s1 in hex_fork(st, c1):
        for h2, s2 in hex_fork(s1, c2):
            if h1 and h2: s2.put(p, q, size, hex2(c1, c2)); out.append((ONE, s2)); continue
            s3 = s2.copy()
            s2.put(p, q, size, ("scanned", c1, c2)); out.append((ONE, s2))      # a sign, a blank, a single digit
            if not h1: out.append((ZERO, s3))
    return out


def m_sprintf(it, I, a, st, argi=1):
    f = it.cstring(a[argi], st)
    m = f is not None and re.fullmatch(rb"%(0?)(\d?)(hh|h|l)?([xX])", f)
    if not m or len(a) != argi + 2: 
        oid, off = ptr(a[0]); st.kill(st.w(oid), off, None); return st.fresh(("sprintf", I.fn.name, I.idx), "sprintf")
    v = num(a[argi + 1]); lo, hi = st.interval(v); oid, off = ptr(a[0])
    if lo < 0 or hi > 255 and m.group(3) != b"hh": return st.fresh(("sprintf", I.fn.name, I.idx), "sprintf")
    w = int(m.group(2) or b"0"); out = []
    for big in ((True,) if w >= 2 and m.group(1) else (True, False)):
        s = st.copy()
        if not (w >= 2 and m.group(1)) and not s.assume0("sge" if big else "slt", add(v, C(-16))): continue
        t = ([nib(v, True)] if big else [C(32)] * max(0, w - 1)) + [nib(v, False), ZERO]
        o = s.r(oid); sz = o.meta.get("size")
        if sz is not None and sz[0] == "c" and off[0] == "c" and off[1] + len(t) > sz[1]:
            raise Violation(f"{len(t)} characters are printed at offset {off[1]} of a buffer of {sz[1]} bytes{at(it, I)}")
        for i, c in enumerate(t): s.put(oid, add(off, C(i)), 1, c)
        out.append((C(len(t) - 1), s))
    return out


def m_snprintf(it, I, a, st): return m_sprintf(it, I, [a[0]] + a[2:], st)


BYTES = {"__gmpz_export": m_export, "__gmpz_import": m_import, "__gmpz_tstbit": m_tstbit, "mpFp_tstbit": m_fetstbit,
         "__gmpz_get_ui": m_get_ui, "__gmpz_sizeinbase": m_sizeinbase, "mpFp_sqrt": m_sqrt, "strlen": m_strlen,
         "__ctype_b_loc": m_ctype_loc, "isxdigit": m_isxdigit, "__isoc99_sscanf": m_sscanf, "__isoc23_sscanf": m_sscanf, "sscanf": m_sscanf,
         "sprintf": m_sprintf, "snprintf": m_snprintf}
for k in ("__gmpz_fdiv_r_ui", "__gmpz_tdiv_r_ui", "__gmpz_mod_ui"): BYTES[k] = m_mod_ui(models.z_mod_ui, True)
for k in ("__gmpz_fdiv_ui", "__gmpz_tdiv_ui"): BYTES[k] = m_mod_ui(M[k], False)


def setup(D, widths):
    """widths: {field: bytes}"""
    it = D.it; it.by_seen = []; it.by_roots = []; it.by_width = dict(widths); it.on_load = on_load; it.on_store = on_store; it.pred_truth = is_hex; it.parity_of = parity_of; it.unroll = 300; it.maxsteps = 3000000


def buffer(D, S, name, n, cells=None, kind="malloc"):
    """a buffer of exactly n bytes"""
    p = D.obj(S[0], name, kind=kind)
    o = S[0].heap[p[1]]; o.meta["size"] = C(n)
    for i, v in enumerate(cells or ()): o.cells[C(i)] = (1, v)
    for s in S[1:]: s.heap[p[1]] = o
    return p


def content(s, p, n):
    """the first n bytes of a buffer"""
    out = []
    for i in range(n):
        v = s.get(p[1], C(i))
        if v is None and s.zero_at(p[1], C(i), 1): v = ZERO
        out.append(v)
    return out


def beyond(s, p, n):
    """offset of a write outside the first n bytes, or None"""
    o = s.heap[p[1]]
    for k, (sz, v) in o.cells.items():
        if k[0] == "c" and (k[1] < 0 or k[1] + sz > n): return k[1]
    for zo, zs in o.zero:
        if zo[0] == "c" and (zo[1] < 0 or zo[1] + zs > n): return zo[1]
    return None
