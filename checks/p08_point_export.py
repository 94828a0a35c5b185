from scen import *
import bytelayer as by
from bytelayer import BYTES, content, buffer, beyond, cint, is_hex
from p03_coordinates import SHAPES, SHAPE_OPT

WID = (8, 9, 16, 17, 521)
FORMS = [(c, t) for c in (0, 1) for t in ("bytes", "str")]


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("for every number of leading zero bytes in each coordinate: the output has exactly the announced length; byte i of a coordinate is the byte of weight width-1-i of that coordinate (of the curve's own equation) or zero")
    rep.rule("first byte 4, or 2 plus the parity of y in the compressed form; the neutral element of Weierstrass and Montgomery curves is all zeros (on Edwards curves it is a finite point)")
    rep.rule("text is the hexadecimal form of the bytes, terminated; nothing else is written; the point is unchanged")
    rep.rule("importing the output gives the same affine coordinates on every path")
    fns = {}
    for kind in KINDS:
        for bits in WID:
            for c, t in FORMS:
                f = "mpECP_out_" + t
                for shape in ("generic", "order2", "x0", "neutral", "neutral-coords"):
                    if shape == "neutral-coords" and kind in ("ws", "mo"): continue
                    if bits in (8, 16, 521) and shape != "generic": continue
                    for scaled in (False, True):
                        if scaled and (bits != 17 or shape != "generic"): continue
                        obl(rep, f"export:{kind}:{bits}bits:{'compressed' if c else 'full'}:{t}:{shape}{':scaled' if scaled else ''}", prog.where(f), fns, export, prog, kind, bits, c, t, shape, scaled)
                    if bits == 17 and shape in ("generic", "neutral") and c:
                        for flag in ("positive", "negative"):
                            obl(rep, f"export:{kind}:{bits}bits:flag-{flag}:{t}:{shape}", prog.where(f), fns, export, prog, kind, bits, c, t, shape, False, flag)
    rep.cover["functions_interpreted"] = fns
    rep.assume.append("coordinates of fields up to 521 bits are represented by widths of one to three bytes (every number of leading zero bytes) and of 66 bytes (none, one, half and all but one or two bytes zero); the byte loops are interpreted for each")


def scene(prog, kind, bits, shape, scaled=False):
    sh = {"neutral": "generic" if kind in ("ws", "mo") else "x0", "neutral-coords": "x0"}.get(shape, shape)
    D = Curve(prog, kind, {"P1": SHAPES[sh][0]}, mk=False, extra=BYTES, **SHAPE_OPT.get((kind, sh), {})); it = D.it
    by.setup(D, {D.fp: (bits + 7) // 8})
    D.cv, D.S = D.mkcurve("cv", D.S, bits=C(bits)); D.off = pt_offsets(prog)
    P, S = D.point("P1", D.S, neutral="blank" if shape != "neutral" else True)
    for s in S: D.mpz(s, "P1.x"); D.mpz(s, "P1.y")
    if shape != "neutral": S = D.dos("mpECP_set_mpz", [P, ("p", ("I", "P1.x"), ZERO), ("p", ("I", "P1.y"), ZERO), D.cv], S)
    for s in S: s.assume0("sge", sub(("s", "p", 0, "p"), C(5)))
    if scaled: D.scale(P, S, "l1")
    it.aborts.clear()
    return D, P, S


def coord(D, c):
    return [a["P1"][c] if a["P1"] is not None else None for _, a in D.samples]


def equals(D, z, want):
    """is the integer term the wanted value at all samples?"""
    v = D.evalt(z)
    if None in v: return None
    return all((a - b) % Q == 0 for a, b in zip(v, want))


def export(prog, kind, bits, comp, form, shape, scaled, flag=None):
    D, P, S = scene(prog, kind, bits, shape, scaled); it = D.it
    cflag = C(int(comp))
    if flag:        # any other true value of the flag
        cflag = ("compress", flag)
        for s in S: s.rng[cflag] = (1, 2**31 - 1, frozenset()) if flag == "positive" else (-2**31, -1, frozenset())
    B = (bits + 7) // 8; n = 1 + B * (1 if comp else 2); text = form == "str"; room = 2 * n + 1 if text else n
    na, ne = len(it.aborts), len(it.events)
    for v, s in D.do("mpECP_out_strlen" if text else "mpECP_out_bytelen", [P, cflag], S):
        if v != C(2 * n if text else n):
            return D, ("bad" if v[0] == "c" else "und"), f"the announced length is {v}, not {2 * n if text else n} for a field of {bits} bits"
    out = buffer(D, S, "out", room)
    R = D.dos("mpECP_out_" + form, [out, P, cflag], S)
    t = trouble(D, na, ne)
    if t: return D, "bad", f"exporting {t}"
    if not R: return D, "bad", "exporting never returns"
    und = None; neutral = shape == "neutral" and kind in ("ws", "mo"); x, y = coord(D, 0), coord(D, 1)
    for s in R:
        w = beyond(s, out, room)
        if w is not None: return D, "bad", f"the output is written at offset {w}, beyond the announced length"
        cells = content(s, out, room)
        if None in cells: return D, "bad", f"position {cells.index(None)} of the output is not written"
        if text:
            if cells[-1] != ZERO: return D, "bad", "the text is not terminated"
            if any(is_hex(s, c) is False for c in cells[:-1]): return D, "bad", "a character that is not a hexadecimal digit is written"
            b = [by.hex2(cells[2 * i], cells[2 * i + 1]) for i in range(n)]
        else: b = cells
        if neutral:
            if any(c != ZERO for c in b): return D, ("bad" if all(c[0] == "c" for c in b) else "und"), "the neutral element is not exported as zeros"
        else:
            w = judge(D, s, b, comp, B, x, y)
            if w and w[0] == "bad": return (D,) + w
            und = und or (w and w[1])
        # the point itself
        if not neutral or kind in ("ed", "te"):
            for _, s2, (cx, cy) in D.affine(P, [s]):
                if equals(D, cx, x) is False or equals(D, cy, y) is False: return D, "bad", "exporting changes the point"
        w = back(D, s, out, form, n, neutral, x, y)
        if w and w[0] == "bad": return (D,) + w
        und = und or (w and w[1])
    return (D, "und", und) if und else (D, "ok", "")


def num_of(D, s, cells, want, what):
    """the cells are the big-endian digits of the wanted value"""
    if all(c[0] == "c" for c in cells):
        v = 0
        for c in cells: v = v * 256 + (c[1] & 255)
        return None if all(v == q for q in want) or v == 0 and all(q == 0 for q in want) else ("bad", f"{what} is exported as {v}")
    for i, c in enumerate(cells):
        w = len(cells) - 1 - i
        if c[0] == "byte":
            if c[2] != w: return "bad", f"byte {i} of {what} holds the byte of weight {c[2]} of a number, not {w}"
            e = equals(D, c[1], want)
            if e is False: return "bad", f"byte {i} of {what} belongs to another number"
            if e is None: return "und", "exported value not known"
            lo, hi = s.interval(("blen", c[1]))
            if w >= lo: return "bad", f"byte {i} of {what} should be a leading zero"
        elif c == ZERO:
            continue
        else: return ("bad" if c[0] == "c" else "und"), f"byte {i} of {what} is {c}"
    nb = [c for c in cells if c[0] == "byte"]
    if nb:
        lo, hi = s.interval(("blen", nb[0][1]))
        if len(nb) != lo: return "bad", f"{len(nb)} of the {lo} bytes of {what} are exported"


def judge(D, s, b, comp, B, x, y):
    w = num_of(D, s, b[1:1 + B], x, "x")
    if w: return w
    if not comp:
        if b[0] != C(4): return ("bad" if b[0][0] == "c" else "und"), f"the first byte of the full form is {b[0]}"
        return num_of(D, s, b[1 + B:], y, "y")
    lo, hi = s.interval(b[0])
    if lo < 2 or hi > 3: return ("bad" if hi < 256 else "und"), "the first byte of the compressed form is neither 2 nor 3"
    par = None      # what the path knows about the parity of y
    if all(v == y[0] and v < 16 for v in y): par = C(y[0] % 2)
    elif all(v == y[0] and Q - v < 16 for v in y): par = C(1 - (Q - y[0]) % 2)
    else:
        for f in D.it.by_seen:
            z = ("int", f); v = D.evalt(z)
            if None in v: continue
            t = ("umod", z, C(2))
            if all((a - c) % Q == 0 for a, c in zip(v, y)): par = t
            elif all((a + c) % Q == 0 for a, c in zip(v, y)): par = sub(ONE, t)
            if par is not None: break
    if par is None:
        return "bad" if lo == hi else "und", "the first byte of the compressed form does not depend on the parity of y"
    d = sub(sub(b[0], C(2)), par)
    l, h = s.interval(d)
    if l == h == 0: return None
    if l > 0 or h < 0: return "bad", "the first byte of the compressed form tells the wrong parity of y"
    if lo == hi or b[0][0] == "lin": return "bad", "the first byte of the compressed form does not tell the parity of y"
    return "und", "parity byte not recognised"


def back(D, s, buf, form, n, neutral, x, y):
    it = D.it; s = s.copy(); it.by_roots = []
    if not neutral:
        for a, c in (("P1.y", 1),):
            it.by_roots = [red(("s", a, 0, a), D.fp)]
    rpt, S = D.point("back", [s], neutral="blank"); na, ne = len(it.aborts), len(it.events)
    args = [rpt, buf, D.cv] if form == "str" else [rpt, buf, C(n), D.cv]
    out = D.do("mpECP_set_" + form, args, S)
    t = trouble(D, na, ne)
    if t: return "bad", f"importing what was exported {t}"
    if not out: return "bad", "importing what was exported never returns"
    und = None
    for t, s in statuses(it, out):
        if t:
            if known_unknown(s): und = "status of the import not known"; continue
            return "bad", "importing what was exported fails"
        nt = s.get(rpt[1], C(D.off["is_neutral"]))
        if neutral:
            if nt == ZERO: return "bad", "the neutral element does not come back"
            continue
        if nt is not None and nt[0] == "c" and nt != ZERO: return "bad", "a finite point comes back as the neutral element"
        for _, s2, (cx, cy) in D.affine(rpt, [s]):
            ex, ey = equals(D, cx, x), equals(D, cy, y)
            if ex is False or ey is False: return "bad", f"importing what was exported gives another point ({'x' if ex is False else 'y'} differs)"
            if ex is None or ey is None: und = "imported point not known"
    return ("und", und) if und else None


def known_unknown(s):
    from p09_ecdsa_sign import wide
    if any(wide(p) for g in ("zr", "nz") for p in s.ghost.get(g, ())): return True
    return any(isinstance(t, tuple) and wide(t) for t in s.rng)
