from scen import *
import bytelayer as by
import eclayer as el
from bytelayer import BYTES, buffer, is_hex
from p08_point_export import known_unknown, scene
from p09_ecdsa_sign import wide

WID = (8, 9, 16, 521)
FIRST = (0, 2, 3, 4, "other")
PRE = ("fresh", "point", "neutral", "equal-curve")


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("every accepting path knows: the length is that of the form; the coordinates are the big-endian numbers in the input, below the field prime; full form: the curve equation holds; compressed form: x is that number, y is a root of the equation's right side with the requested parity (zero only as even); neutral form: all bytes zero")
    rep.rule("every refusing path knows one of these to fail")
    rep.rule("no assertion failure, no read outside the input; text: an odd length or a character that is no hexadecimal digit is refused, otherwise as for its bytes")
    fns = {}
    for kind in KINDS:
        for bits in WID:
            B = (bits + 7) // 8; w = prog.where("mpECP_set_bytes")
            lens = range(0, 2 * B + 4) if B < 4 else (B, B + 1, B + 2, 2 * B, 2 * B + 1, 2 * B + 2)
            for n in lens:
                for f in FIRST if n else ("other",):
                    obl(rep, f"bytes:{kind}:{bits}bits:first-{f}:length{n}", w, fns, imp, prog, kind, bits, n, f, "bytes")
            for n in ((B + 1) * 2, (2 * B + 1) * 2):
                if B > 4: continue
                for f in FIRST:
                    obl(rep, f"text:{kind}:{bits}bits:first-{f}:length{n}", prog.where("mpECP_set_str"), fns, imp, prog, kind, bits, n // 2, f, "str")
                obl(rep, f"text:{kind}:{bits}bits:any:length{n}", prog.where("mpECP_set_str"), fns, text, prog, kind, bits, n)
            for n in (0, 1, 2 * B + 1, 2 * B + 3, 4 * B + 1, 4 * B + 3):
                if B < 4: obl(rep, f"text:{kind}:{bits}bits:any:length{n}", prog.where("mpECP_set_str"), fns, text, prog, kind, bits, n)
        for f in (0, 2, 4):
            for pre in PRE[1:]:
                n = 3 if f == 4 else 2
                obl(rep, f"bytes:{kind}:8bits:first-{f}:into-{pre}", prog.where("mpECP_set_bytes"), fns, imp, prog, kind, 8, n, f, "bytes", pre)
    rep.cover["functions_interpreted"] = fns
    rep.assume.append("fields are represented by widths of 8, 9, 16 and 521 bits; all contents of the input are symbolic")
    rep.assume.append("inverse and square root of the field layer as decided by P14")


def scene7(prog, kind, bits, pre="fresh"):
    D = Curve(prog, kind, {"P1": lambda k, co, p: p[0]}, mk=False, extra=BYTES); it = D.it
    by.setup(D, {D.fp: (bits + 7) // 8}); del it.models["mpFp_sqrt"]; it.models["mpFp_sqrt"] = F["mpFp_sqrt"]
    D.cv, S = D.mkcurve("cv", D.S, bits=C(bits)); D.off = pt_offsets(prog)
    cv1 = D.cv
    if pre == "equal-curve": cv1, S = D.mkcurve("cv1", S, bits=C(bits))
    if pre == "fresh": P, S = D.point("P1", S, neutral="blank")
    else: P, S = D.point("P1", S, neutral=pre == "neutral", cv=cv1)
    it.vals = None; it.generic = False; it.keep_facts = True
    for s in S: s.assume0("sge", sub(("s", "p", 0, "p"), C(5)))
    it.aborts.clear()
    # coefficients of the curve equation, all but d = 0 and the like excluded nothing
    n1, n2 = SETTER[kind][1:]
    c = {n: red(("s", n, 0, n), D.fp) for n in (n1, n2)}
    if kind == "mo":
        for s in S: s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {c["B"].n}
    D.co = c
    return D, P, S


def fe1(fp): return FE(ONEP, ONEP, fp)


def equation(kind, c, x, y, fp):
    """left minus right side"""
    sq = lambda a: fmul(a, a)
    if kind == "ws": return fadd(sq(y), fadd(fadd(fmul(sq(x), x), fmul(c["a"], x)), c["b"]), -1)
    if kind == "mo": return fadd(fmul(c["B"], sq(y)), fadd(fadd(fmul(sq(x), x), fmul(c["A"], sq(x))), x), -1)
    if kind == "ed":
        k = fadd(fe1(fp), fmul(c["d"], fmul(sq(x), sq(y))))
        return fadd(fadd(sq(x), sq(y)), fmul(sq(c["c"]), k), -1)
    return fadd(fadd(fmul(c["a"], sq(x)), sq(y)), fadd(fe1(fp), fmul(c["d"], fmul(sq(x), sq(y)))), -1)


def rhs(kind, c, x, fp):
    """(numerator, denominator) of y squared"""
    sq = lambda a: fmul(a, a); one = fe1(fp)
    if kind == "ws": return fadd(fadd(fmul(sq(x), x), fmul(c["a"], x)), c["b"]), one
    if kind == "mo": return fadd(fadd(fmul(sq(x), x), fmul(c["A"], sq(x))), x), c["B"]
    if kind == "ed": return fadd(sq(c["c"]), sq(x), -1), fadd(one, fmul(fmul(sq(c["c"]), c["d"]), sq(x)), -1)
    return fadd(one, fmul(c["a"], sq(x)), -1), fadd(one, fmul(c["d"], sq(x)), -1)


def prop_(p, q):
    """q a nonzero constant times p"""
    if len(p.d) != len(q.d) or set(p.d) != set(q.d) or not p.d: return False
    m = next(iter(p.d)); r = Fraction(q.d[m]) / Fraction(p.d[m])
    return all(Fraction(q.d[k]) == r * Fraction(v) for k, v in p.d.items())


from fractions import Fraction


def known(s, p, which):
    return any(prop_(p, q) for q in s.ghost.get(which, ()))


def number(cells):
    t = ZERO
    for i, c in enumerate(cells): t = add(t, mulc(c, 256 ** (len(cells) - 1 - i)))
    return by.numeral(t)


def imp(prog, kind, bits, n, first, form, pre="fresh"):
    D, P, S = scene7(prog, kind, bits, pre); it = D.it; B = (bits + 7) // 8
    if form == "bytes":
        cells = [("u", 8, ("in", i)) for i in range(n)]
        if n and first != "other": cells[0] = C(first)
        buf = buffer(D, S, "input", n, cells, kind="input"); args = [P, buf, C(n), D.cv]
        if n and first == "other":
            for s in S:
                for v in (0, 2, 3, 4): s.assume0("ne", add(cells[0], C(-v)))
        val = cells
    else:
        ch = [("u", 8, ("ch", i)) for i in range(2 * n)]
        if first != "other": ch[0] = C(48); ch[1] = C(48 + first)
        buf = buffer(D, S, "input", 2 * n + 1, ch + [ZERO], kind="input"); args = [P, buf, D.cv]
        for s in S:
            for c in ch:
                if c[0] != "c": s.bools[("xdigit", c)] = True; s.assume0("ne", c)
        val = [by.hex2(ch[2 * i], ch[2 * i + 1]) for i in range(n)]
        if first == "other":
            for s in S:
                for v in (0, 2, 3, 4): s.assume0("ne", add(val[0], C(-v)))
    na, ne = len(it.aborts), len(it.events)
    R = D.do("mpECP_set_" + form, args, S)
    t = trouble(D, na, ne)
    what = f"{form} input of {n} bytes with first byte {first} on a {bits} bit field"
    if t: return D, "bad", f"{what}: import {t}"
    if not R: return D, "bad", f"{what}: import never returns"
    und = None
    for t, s in feasible7(statuses(it, R)):
        r = judge(D, s, P, kind, B, n, first, val, not t)
        if not r: continue
        if r[0] == "bad" and not known_unknown7(s): return D, "bad", f"{what}: {r[1]}"
        und = und or r[1]
    return (D, "und", und) if und else (D, "ok", "")


def feasible7(g):
    """paths whose facts do not contradict each other"""
    for x in g:
        s = x[1]; zr = s.ghost.get("zr", ())
        if el.infeasible(s): continue
        if any(isinstance(t, tuple) and t[0] == "umod" and t[2] == C(2) and t[1][0] == "int" and r[0] >= 1 and
               (t[1][1].n in zr or -t[1][1].n in zr) for t, r in s.rng.items()): continue      # zero is even
        yield x


def known_unknown7(s, more=("scanned",)):
    """values made up by the analysis, not counting square roots and inverses that failed"""
    def w(t):
        if isinstance(t, FE): return w(t.n) or w(t.d)
        if isinstance(t, Poly): return any(w(v) for v in t.vars())
        if not isinstance(t, tuple) or not t: return False
        if t[0] == "s" and isinstance(t[1], tuple) and t[1]: return True
        if t[0] in ("fpow", "udiv", "powm", "zinv", "import", "op", "undef", "sgn", "limb") + more: return True
        return any(w(x) for x in t[1:] if isinstance(x, (tuple, FE, Poly)))
    return any(w(p) for g in ("zr", "nz") for p in s.ghost.get(g, ())) or any(w(t) for t in s.rng if isinstance(t, tuple)) or \
        any(w(t) for t in s.bools if isinstance(t, tuple) and t[0] != "null")


def judge(D, s, P, kind, B, n, first, val, accepted):
    it = D.it; p = ("s", "p", 0, "p")
    ok_len = {0: (1 + B, 1 + 2 * B), 4: (1 + 2 * B,), 2: (1 + B,), 3: (1 + B,), "other": ()}[first]
    if n not in ok_len:
        return ("bad", "accepted, although no encoding has this form") if accepted else None
    neutral = s.get(P[1], C(D.off["is_neutral"])) if accepted else None
    if first == 0:
        nz = [v for v in val[1:] if s.cmp0("eq", v) is False]; allz = all(s.cmp0("eq", v) is True for v in val[1:])
        if not accepted: return None if nz else ("bad", "refused, although all bytes may be zero")
        if not allz: return "bad", "accepted as the neutral element, although not all bytes are known to be zero"
        return check_point(D, s, P, kind, None, None)
    X = number(val[1:1 + B]); x = red(X, D.fp); big = s.cmp0("sge", sub(X, p)); fp = D.fp
    if first == 4:
        Y = number(val[1 + B:]); y = red(Y, D.fp); bigy = s.cmp0("sge", sub(Y, p))
        E = equation(kind, D.co, x, y, fp)
        if not accepted:
            if big or bigy or known(s, E.n, "nz"): return None
            return "bad", "refused, although the coordinates may be canonical and on the curve"
        if big is not False or bigy is not False: return "bad", f"accepted, although {'x' if big is not False else 'y'} may not be below the field prime"
        if not (known(s, E.n, "zr") or E.n.is_zero()): return "bad", "accepted, although the coordinates may not satisfy the curve equation"
        return check_point(D, s, P, kind, x, y)
    N, Dn = rhs(kind, D.co, x, fp); q = fmul(N, FE(Dn.d, Dn.n, fp))
    st = None      # square root: status
    for t in set(s.rng):
        if isinstance(t, tuple) and t and t[0] == "sqrtst" and el.eqfe(t[1], q): st = t
    root = FE(Poly.var(("sqrt", st[1])), ONEP, fp) if st else None
    nosq = st is not None and s.cmp0("ne", st) is True
    dz = not Dn.n.is_const() and known(s, Dn.n, "zr")
    yz = root is not None and (root.n in s.ghost.get("zr", ()) or -root.n in s.ghost.get("zr", ()))
    if not accepted:
        if big or nosq or dz or (first == 3 and yz): return None
        if Dn.n.is_const() is False and kind != "mo" and known(s, Dn.n, "zr"): return None
        return "bad", "refused, although there may be a point with this x coordinate and parity"
    if big is not False: return "bad", "accepted, although x may not be below the field prime"
    if st is None or s.cmp0("eq", st) is not True:
        if any(isinstance(t, tuple) and t and t[0] == "sqrtst" and s.cmp0("eq", t) is True for t in s.rng): return "bad", "accepted with the root of something other than the right side of the curve equation"
        return "bad", "accepted, although there may be no y for this x coordinate"
    par = ("umod", by.cint(it, fint_(root))[0], C(2))
    want = first & 1; iv = s.interval(par)
    if yz:
        if want: return "bad", "accepted: y = 0 has no odd counterpart"
        return check_point(D, s, P, kind, x, FE(Poly(), ONEP, fp), True)
    if iv[0] != iv[1]: return "bad", "accepted, although the parity of y is not established"
    y = root if iv[0] == want else FE(-root.n, root.d, fp)
    if iv[0] != want and not (root.n in s.ghost.get("nz", ()) or -root.n in s.ghost.get("nz", ())):
        return "bad", "accepted, although y may be zero and have no odd counterpart" if want else "y negated without being known nonzero"
    return check_point(D, s, P, kind, x, y)


def fint_(f): return models.fint(f)


def check_point(D, s, P, kind, x, y, yzero=False):
    it = D.it; nt = s.get(P[1], C(D.off["is_neutral"]))
    if s.get(P[1], C(D.off["cvp"])) != D.cv: return "bad", "the imported point does not refer to the given curve"
    if x is None:
        if kind in ("ws", "mo"): return None if nt is not None and nt != ZERO else ("bad", "the neutral element does not result")
        x = FE(Poly(), ONEP, D.fp); y = D.co["c"] if kind == "ed" else fe1(D.fp)
    elif nt is not None and nt[0] == "c" and nt != ZERO: return "bad", "a finite point results in the neutral element"
    for _, s2, (cx, cy) in D.affine(P, [s]):
        for nm, z, f in (("x", cx, x), ("y", cy, y)):
            if yzero and nm == "y":
                g = red(z, D.fp)
                if not (g.n.is_zero() or any(prop_(g.n, q) for q in s2.ghost.get("zr", ()))): return "bad", "the imported point has another y coordinate"
                continue
            g = red(z, D.fp)
            if not el.eqfe(g, f): return "bad", f"the imported point has another {nm} coordinate"


def text(prog, kind, bits, n):
    """n arbitrary characters: accepted only when every one is a hexadecimal digit"""
    D, P, S = scene7(prog, kind, bits); it = D.it
    ch = [("u", 8, ("ch", i)) for i in range(n)]
    buf = buffer(D, S, "input", n + 1, ch + [ZERO], kind="input")
    for s in S:
        for c in ch: s.assume0("ne", c)
    na, ne = len(it.aborts), len(it.events)
    R = D.do("mpECP_set_str", [P, buf, D.cv], S)
    t = trouble(D, na, ne)
    if t: return D, "bad", f"text of {n} characters: import {t}"
    if not R: return D, "bad", "text import never returns"
    und = None; acc = 0
    for t, s in feasible7(statuses(it, R)):
        if t: continue
        acc += 1; bad = None
        if n % 2: bad = "text of odd length is accepted"
        elif any(is_hex(s, c) is False for c in ch): bad = "text with a character that is not a hexadecimal digit is accepted"
        elif any(is_hex(s, c) is None for c in ch): bad = "text is accepted without every character being known to be a hexadecimal digit"
        if bad:
            if known_unknown7(s, ()): und = bad; continue
            return D, "bad", bad
    if n in ((bits + 7) // 8 * 2 + 2, (bits + 7) // 8 * 4 + 2) and not acc: return D, "bad", "no text of this length is accepted"
    return (D, "und", und) if und else (D, "ok", "")
