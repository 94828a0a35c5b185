from scen import *
import bytelayer as by
import eclayer as el
from eclayer import eccurve, scalar, eqfe
from bytelayer import BYTES, buffer, content, beyond, is_hex
from p02_scalar_mult import order
from p07_point_import import number, known_unknown7
from p09_ecdsa_sign import mkscheme, snapshot, same
from p10_ecdsa_verify import mksig

P255 = (1 << 255) - 19
# (bits of the order, field prime): order shorter and longer than the field, whole bytes or not
SHAPES = ((9, P255), (16, 251), (17, 251), (17, P255), (24, (1 << 31) - 1), (65, P255), (521, P255))
EX, IM = "mpECDSASignature_export_", "mpECDSASignature_init_import_"


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("export, for every number of leading zero bytes in r and s: the buffer has exactly twice the bytes of the order, position i of each half is the byte of weight width-1-i or zero; text is its hexadecimal form, terminated; the signature is unchanged")
    rep.rule("importing what was exported succeeds on every path and gives equal r and s")
    rep.rule("import accepts exactly when the length is twice the bytes of the order and both numbers are known to be at least one and below the order; every refusing path knows one of these to fail; text only if every character is a hexadecimal digit")
    rep.rule("nothing is read or written outside the buffers; a refused import leaves nothing initialised")
    fns = {}
    for nb, p in SHAPES:
        nsz = (nb + 7) // 8
        for form in ("bytes", "str"):
            we, wi = prog.where(EX + form), prog.where(IM + form)
            obl(rep, f"export:{form}:order{nb}:field{p.bit_length()}", we, fns, export, prog, nb, p, form)
            lens = range(0, 2 * nsz + 4) if nsz < 4 else (2 * nsz - 2, 2 * nsz - 1, 2 * nsz, 2 * nsz + 1, 2 * nsz + 2, nsz, 64)
            for n in lens:
                if form == "bytes": obl(rep, f"import:bytes:order{nb}:field{p.bit_length()}:length{n}", wi, fns, imp, prog, nb, p, n, form)
                elif nsz < 4: obl(rep, f"import:str:order{nb}:field{p.bit_length()}:length{2 * n}", wi, fns, imp, prog, nb, p, n, form)
            if form == "str" and nsz < 4:
                for n in (4 * nsz, 4 * nsz - 1, 4 * nsz + 1, 1, 0): obl(rep, f"import:text:order{nb}:field{p.bit_length()}:length{n}", wi, fns, text, prog, nb, p, n)
    for b in ("null-sig", "null-scheme"):
        for form in ("bytes", "str"): obl(rep, f"refuses:{form}:{b}", prog.where(IM + form), fns, refuse, prog, form, b)
    rep.cover["functions_interpreted"] = fns
    rep.assume.append("orders are represented by widths of 9, 16, 17, 24, 65 and 521 bits; all residues and all input bytes are symbolic")


def scene(prog, nb, p):
    D = eccurve(prog, "ws", order(nb), p, extra=BYTES); it = D.it
    by.setup(D, {}); it.keep_facts = True
    sch, H, S = mkscheme(D, D.S, 3)
    return D, sch, S


def retbuf(D, s, v):
    if v is None or v[0] != "p" or v[2] != ZERO or s.heap[v[1]].freed or s.heap[v[1]].kind != "malloc": return None
    return v


def export(prog, nb, p, form):
    D, sch, S = scene(prog, nb, p); it = D.it; nsz = (nb + 7) // 8
    sig, r, sg = mksig(D, S, sch)
    for s in S: s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {r.n, sg.n}
    szp = D.obj(S[0], "size", kind="malloc")
    [s.heap.__setitem__(szp[1], S[0].heap[szp[1]]) for s in S]
    na, ne = len(it.aborts), len(it.events); und = None; n = 0
    for s0 in S:
        objs = {"signature": sig, "scheme": sch, "curve": D.cv}; snap = snapshot(D, s0, objs)
        out = D.do(EX + form, [sig, szp] if form == "bytes" else [sig], [s0])
        t = trouble(D, na, ne)
        if t: return D, "bad", f"exporting {t}"
        for v, s in out:
            n += 1; buf = retbuf(D, s, v)
            if buf is None: return D, "bad", "the result is not a buffer the caller can keep"
            w = same(D, s, objs, snap)
            if w: return D, "bad", f"while exporting {w}"
            room = 2 * nsz if form == "bytes" else 4 * nsz + 1
            if form == "bytes" and s.get(szp[1], ZERO) != C(2 * nsz): return D, "bad", f"the reported size is {s.get(szp[1], ZERO)}, not {2 * nsz} for an order of {nb} bits"
            sz = s.heap[buf[1]].meta.get("size")
            if sz is not None and sz[0] == "c" and sz[1] < room: return D, "bad", f"the buffer has {sz[1]} bytes, not {room}"
            w = beyond(s, buf, sz[1] if sz is not None and sz[0] == "c" else room)
            if w is not None: return D, "bad", f"the export is written at offset {w}, outside the buffer"
            cells = content(s, buf, room)
            if None in cells: return D, "bad", f"position {cells.index(None)} of the export is not written"
            if form == "str":
                if cells[-1] != ZERO: return D, "bad", "the text is not terminated at twice the announced bytes"
                if any(is_hex(s, c) is False for c in cells[:-1]): return D, "bad", "a character that is not a hexadecimal digit is written"
                b = [by.hex2(cells[2 * i], cells[2 * i + 1]) for i in range(2 * nsz)]
            else: b = cells
            for nm, f, part in (("r", r, b[:nsz]), ("s", sg, b[nsz:])):
                x = half(D, s, part, f, nm)
                if x and x[0] == "bad": return (D,) + x
                und = und or (x and x[1])
            x = back(D, s, sch, buf, form, nsz, r, sg)
            if x and x[0] == "bad": return (D,) + x
            und = und or (x and x[1])
    if not n: return D, "bad", "exporting never returns"
    return (D, "und", und) if und else (D, "ok", "")


def half(D, s, cells, f, what):
    k = 0
    for i, c in enumerate(cells):
        w = len(cells) - 1 - i
        if c[0] == "byte":
            if c[1][0] != "int": return "und", "exported value not known"
            if not eqfe(c[1][1], f): return "bad", f"byte {i} of {what} belongs to another number"
            if c[2] != w: return "bad", f"byte {i} of {what} holds the byte of weight {c[2]}, not {w}"
            k += 1; lo, hi = s.interval(("blen", c[1]))
            if w >= lo: return "bad", f"byte {i} of {what} should be a leading zero"
        elif c != ZERO: return ("bad" if c[0] == "c" else "und"), f"byte {i} of {what} is {c}"
    if not k: return "bad", f"{what} is exported as zero"
    if k != lo: return "bad", f"{k} of the {lo} bytes of {what} are exported"


def back(D, s, sch, buf, form, nsz, r, sg):
    it = D.it; s = s.copy(); so = D.p.offsets("_mpECDSASignature_t")
    sig = D.obj(s, "sig2", kind="malloc"); na, ne = len(it.aborts), len(it.events)
    out = D.do(IM + form, [sig, sch, buf, C(2 * nsz)] if form == "bytes" else [sig, sch, buf], [s])
    t = trouble(D, na, ne)
    if t: return "bad", f"importing what was exported {t}"
    if not out: return "bad", "importing what was exported never returns"
    for t, s in el.feasible(statuses(it, out)):
        if t: return ("und" if known_unknown7(s) else "bad"), "importing what was exported fails"
        for nm, f in (("r", r), ("s", sg)):
            c = s.heap[sig[1]].cells.get(("fe", C(so[nm][0])))
            if c is None or not eqfe(c[1], f) or c[1].fp != f.fp: return ("und" if known_unknown7(s) else "bad"), f"importing what was exported gives another {nm}"
        if s.get(sig[1], C(so["sscheme"][0])) != sch: return "bad", "the imported signature does not refer to its scheme"


def accepted(D, s, sig, sch, X, Y, n):
    so = D.p.offsets("_mpECDSASignature_t")
    for nm, Z in (("r", X), ("s", Y)):
        if s.cmp0("sgt", Z) is not True: return "bad", f"accepted, although {nm} may be zero"
        if s.cmp0("slt", sub(Z, C(n))) is not True: return "bad", f"accepted, although {nm} may not be below the order"
        c = s.heap[sig[1]].cells.get(("fe", C(so[nm][0])))
        if c is None or not eqfe(c[1], red(Z, D.nfp)): return "bad", f"the imported {nm} is not the number in the input"
        if c[1].fp != D.nfp: return "bad", f"the imported {nm} is not a residue of the order"
    if s.get(sig[1], C(so["sscheme"][0])) != sch: return "bad", "the imported signature does not refer to its scheme"


def imp(prog, nb, p, n, form):
    D, sch, S = scene(prog, nb, p); it = D.it; nsz = (nb + 7) // 8; N = order(nb)
    sig = D.obj(S[0], "sig", kind="malloc"); [s.heap.__setitem__(sig[1], S[0].heap[sig[1]]) for s in S]
    if form == "bytes":
        cells = val = [("u", 8, ("in", i)) for i in range(n)]; args = [C(n)]
        buf = buffer(D, S, "input", n, cells, kind="input")
    else:
        ch = [("u", 8, ("ch", i)) for i in range(2 * n)]; args = []
        buf = buffer(D, S, "input", 2 * n + 1, ch + [ZERO], kind="input"); val = [by.hex2(ch[2 * i], ch[2 * i + 1]) for i in range(n)]
        for s in S:
            for c in ch: s.bools[("xdigit", c)] = True; s.assume0("ne", c)
    na, ne = len(it.aborts), len(it.events); before = dict(S[0].heap[buf[1]].cells)
    out = D.do(IM + form, [sig, sch, buf] + args, S)
    what = f"import of {n} bytes for an order of {nb} bits"
    t = trouble(D, na, ne)
    if t: return D, "bad", f"{what} {t}"
    if not out: return D, "bad", f"{what} never returns"
    und = None
    for t, s in el.feasible(statuses(it, out)):
        r = None
        if any(s.heap[buf[1]].cells.get(k) != v for k, v in before.items()): r = "bad", "the input is changed"
        elif n != 2 * nsz: r = None if t else ("bad", "accepted, although the length is not twice that of the order")
        else:
            X, Y = number(val[:nsz]), number(val[nsz:])
            if not t: r = accepted(D, s, sig, sch, X, Y, N)
            elif not any(s.cmp0("sle", Z) is True or s.cmp0("sge", sub(Z, C(N))) is True for Z in (X, Y)): r = "bad", "refused, although both numbers may be between 1 and the order"
        if t and not r and any(x == "live" for x in s.heap[sig[1]].res.values()): r = "bad", "refused, leaving an initialised signature behind"
        if r:
            if r[0] == "bad" and not known_unknown7(s): return D, "bad", f"{what}: {r[1]}"
            und = und or r[1]
    return (D, "und", und) if und else (D, "ok", "")


def text(prog, nb, p, n):
    D, sch, S = scene(prog, nb, p); it = D.it; nsz = (nb + 7) // 8
    sig = D.obj(S[0], "sig", kind="malloc"); [s.heap.__setitem__(sig[1], S[0].heap[sig[1]]) for s in S]
    ch = [("u", 8, ("ch", i)) for i in range(n)]
    buf = buffer(D, S, "input", n + 1, ch + [ZERO], kind="input")
    for s in S:
        for c in ch: s.assume0("ne", c)
    na, ne = len(it.aborts), len(it.events)
    out = D.do(IM + "str", [sig, sch, buf], S)
    t = trouble(D, na, ne)
    if t: return D, "bad", f"import of {n} characters {t}"
    if not out: return D, "bad", "text import never returns"
    acc = 0; und = None
    for t, s in el.feasible(statuses(it, out)):
        if t: continue
        acc += 1; bad = None
        if n != 4 * nsz: bad = f"text of {n} characters is accepted for an order of {nb} bits"
        elif any(is_hex(s, c) is False for c in ch): bad = "text with a character that is not a hexadecimal digit is accepted"
        elif any(is_hex(s, c) is None for c in ch): bad = "text is accepted without every character being known to be a hexadecimal digit"
        if bad and known_unknown7(s, ()): und = bad
        elif bad: return D, "bad", bad
    if n == 4 * nsz and not acc: return D, "bad", "no text of the right length is accepted"
    return (D, "und", und) if und else (D, "ok", "")


def refuse(prog, form, b):
    D, sch, S = scene(prog, 17, P255); it = D.it
    sig = D.obj(S[0], "sig", kind="malloc"); [s.heap.__setitem__(sig[1], S[0].heap[sig[1]]) for s in S]
    n = 6; cells = [("u", 8, ("in", i)) for i in range(n if form == "bytes" else 2 * n)]
    buf = buffer(D, S, "input", len(cells) + (form == "str"), cells + ([ZERO] if form == "str" else []), kind="input")
    for s in S:
        for c in cells:
            if form == "str": s.assume0("ne", c)
    na, ne = len(it.aborts), len(it.events)
    out = D.do(IM + form, [ZERO if b == "null-sig" else sig, ZERO if b == "null-scheme" else sch, buf] + ([C(n)] if form == "bytes" else []), S)
    t = trouble(D, na, ne)
    if t: return D, "bad", f"import with {b} {t}"
    for t, s in statuses(it, out):
        if not t: return D, ("und" if known_unknown7(s) else "bad"), f"import with {b} reports success"
    return D, "ok", ""
