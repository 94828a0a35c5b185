"""P05: the table of built-in curves, by constant propagation through the selection function."""
import json, os
from scen import *
import curvemath as cm

REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "named_curves.json")
NAME = ("p", ("I", "name"), ZERO)
FIELDS = ("p", "1", "2", "n", "h", "Gx", "Gy", "bits")
LABEL = {"ws": ("a", "b"), "ed": ("c", "d"), "mo": ("B", "A"), "te": ("a", "d")}


# ------------------------------------------------------------ texts
def text(it, p, st):
    """bytes of a constant text, the marker NAME for the text being looked up, or None"""
    if p == NAME:
        n = st.ghost.get("name")
        return n if n is not None else NAME
    if p[0] != "p": return None
    s = it.cstring(p, st)
    if s is not None or p[2][0] != "c": return s
    out = []
    for k in range(400):
        v = st.get(p[1], add(p[2], C(k)))
        if v is None or v[0] != "c": return None
        if v == ZERO: return bytes(out)
        out.append(v[1] & 255)


def compare(fold=False, bounded=False):
    def m(it, I, a, st):
        x, y = text(it, a[0], st), text(it, a[1], st)
        if x is None or y is None: raise AnalysisBroken("comparison of a text that is not known")
        n = None
        if bounded:
            if num(a[2])[0] != "c": raise AnalysisBroken("comparison length not known")
            n = num(a[2])[1]
        f = (lambda t: t.lower()) if fold else (lambda t: t)
        cut = lambda t: f(t)[:n]
        if x is NAME and y is NAME: return ZERO
        if x is not NAME and y is not NAME:
            x, y = cut(x), cut(y); return C((x > y) - (x < y))
        t = y if x is NAME else x
        if t in st.ghost.get("not", ()) and not fold and not (n is not None and n <= len(t)): return ONE
        out = []
        s = st.copy(); s.ghost["name"] = t; out.append((ZERO, s))                     # the very text
        if fold and t.swapcase() != t: s = st.copy(); s.ghost["name"] = t.swapcase(); out.append((ZERO, s))
        if n is not None and n <= len(t): s = st.copy(); s.ghost["name"] = t[:n] + b"!"; out.append((ZERO, s))
        s = st.copy(); s.ghost["not"] = s.ghost.get("not", frozenset()) | {t}; out.append((ONE, s))   # any other text
        return out
    return m


def strlen(it, I, a, st):
    t = text(it, a[0], st)
    if t is NAME or t is None: raise AnalysisBroken("length of an unknown name examined")
    return C(len(t))


def setint(it, I, a, st):
    if I.x["callee"][1].endswith("init_set_str"): models.res_init(it, I, a[0], "z", st); models.zwr(it, I, a[0], ZERO, st)
    t = text(it, a[1], st)
    if t is None or t is NAME or num(a[2])[0] != "c": raise AnalysisBroken("number text not known")
    v = cm.gmp_int(t.decode("latin1"), num(a[2])[1])
    if v is None: return C(-1)
    models.zwr(it, I, a[0], C(v), st); return ZERO


def setter(kind, via):
    """the setters store what they are given (decided by P04); here only their arguments matter"""
    def m(it, I, a, st):
        vals = []
        for k, x in enumerate(a[1:8]):
            if via == "str":
                t = text(it, x, st)
                if t is None: raise AnalysisBroken("parameter text not known")
                v = None if t is NAME else cm.gmp_int(t.decode("latin1"))
            else:
                z = models.zrd(it, I, x, st)
                if z[0] != "c": raise AnalysisBroken("parameter not constant")
                v = z[1]
            vals.append(v)
        if None in vals:
            st.ghost["set"] = st.ghost.get("set", ()) + ((kind, None),); return C(-1)
        b = num(a[8])
        if b[0] != "c": raise AnalysisBroken("bit size not constant")
        st.ghost["set"] = st.ghost.get("set", ()) + ((kind, tuple(vals) + (b[1],)),)
        return ZERO
    return m


MODELS = {"strcmp": compare(), "strncmp": compare(bounded=True), "strcasecmp": compare(True), "strncasecmp": compare(True, True),
          "memcmp": compare(bounded=True), "strlen": strlen, "__gmpz_set_str": setint, "__gmpz_init_set_str": setint}
for k_ in KINDS:
    for v_ in ("str", "mpz"): MODELS[SETTER[k_][0].replace("mpz", v_)] = setter(k_, v_)


# ------------------------------------------------------------ selection
def select(prog, name, before=()):
    """outcomes [(name or None, status, setter calls)] of selecting a curve, after other selections; name None stands for every text"""
    D = Driver(prog, extra=MODELS); it = D.it; st = D.st0
    it.unroll = 400; it.maxsteps = 3000000; it.unroll_pointers = True; it.pre_load = unread
    cv = D.obj(st, "cv", kind="malloc")
    o = Obj("input", None, "name"); o.meta["nonnull"] = True; st.heap[NAME[1]] = o
    S = D.dos("mpECurve_init", [cv], [st])
    na = len(it.aborts)
    for n in before:
        for s in S: put(s, n)
        S = D.dos("mpECurve_set_named", [cv, NAME], S)
        for s in S: s.ghost.pop("set", None)
    if name is not None:
        for s in S: put(s, name)
    out = [(s.ghost.get("name"), v, s.ghost.get("set", ()), s) for v, s in D.do("mpECurve_set_named", [cv, NAME], S)]
    for I, s, _ in it.aborts[na:]: out.append((s.ghost.get("name"), None, s.ghost.get("set", ()), s))
    if it.widenings: raise AnalysisBroken("a loop of the selection could not be followed")
    return D, out


def unread(I, p, ty, st):
    if p[0] == "p" and p[1] == NAME[1] and "name" not in st.ghost: raise AnalysisBroken("bytes of an unknown name examined")


def put(s, name):
    s.ghost["name"] = name; o = s.w(NAME[1]); o.cells.clear()
    for k, ch in enumerate(name + b"\0"): o.cells[C(k)] = (1, C(ch if ch < 128 else ch - 256))


def show(n): return "any other name" if n is None else repr(n.decode("latin1"))


_CACHE = {}


def table(prog):
    """{name: (kind, values)} accepted by the selection function, or the reason why that is not decided"""
    if "t" not in _CACHE:
        try: _CACHE["t"] = table1(prog)
        except AnalysisBroken as e:
            if "not found" in str(e): raise
            _CACHE["t"] = (None, None, str(e))
        except Exception as e: _CACHE["t"] = (None, None, f"internal error {e!r}")
    return _CACHE["t"]


def table1(prog):
    D, out = select(prog, None)
    got = {}
    for n, v, calls, s in out:
        if n is not None and v == ZERO and calls: got.setdefault(n, calls[-1])
    return D, got, out


def unknown(prog):
    """every text other than an accepted name is refused and leaves the curve alone"""
    D, got, out = table(prog)
    if got is None: return None, "und", out
    for n, v, calls, s in out:
        if v is None: return D, "bad", f"selecting {show(n)} reaches an assertion failure"
        t = truthy(D.it, s, v)
        if t is None: return D, "und", "status not decided"
        if n is None and not t: return D, "bad", "a name that is not in the table is accepted"
        if n is None and calls: return D, "bad", "the curve is changed for a name that is not in the table"
        if n is not None and not t and n not in refs() and (n.swapcase() in refs() or n[-1:] == b"!" and any(r.startswith(n[:-1]) for r in refs())):
            return D, "bad", f"{show(n)}, which is not the name of a curve, is accepted"
    if not any(n is None for n, *_ in out): return D, "bad", "no path refuses a name"
    return D, "ok", f"{len(got)} names"


def refs():
    if "r" not in _CACHE:
        _CACHE["r"] = {k.encode(): (v["kind"], tuple(int(v[f]) for f in FIELDS)) for k, v in json.load(open(REF)).items()}
    return _CACHE["r"]


def value(prog, name, before=()):
    """the published parameters"""
    D, out = select(prog, name, before)
    kind, want = refs()[name]
    for n, v, calls, s in out:
        if v is None: return D, "bad", f"selecting {show(name)} reaches an assertion failure"
        t = truthy(D.it, s, v)
        if t is None: return D, "und", "status not decided"
        if t: return D, "bad", f"{show(name)} is refused"
        if not calls: return D, "bad", f"{show(name)} is accepted and the curve is not defined"
        k, got = calls[-1]
        if k != kind: return D, "bad", f"{show(name)} is defined as a curve of another type ({k} for {kind})"
        if got is None: return D, "bad", f"a parameter of {show(name)} is not a number"
        for f, x, y in zip(FIELDS, got, want):
            if f in ("1", "2"): x, y = x % want[0], y % want[0]
            if x != y: return D, "bad", f"{show(name)}: parameter {label(kind, f)} is {x:#x}; published: {y:#x}"
    return D, ("ok" if out else "bad"), "" if out else "the selection never returns"


def label(kind, f): return LABEL[kind][int(f) - 1] if f in "12" else f


def refused(prog, name, before=()):
    D, out = select(prog, name, before)
    for n, v, calls, s in out:
        if v is None: return D, "bad", f"selecting {show(name)} reaches an assertion failure"
        t = truthy(D.it, s, v)
        if t is None: return D, "und", "status not decided"
        if not t: return D, "bad", f"{show(name)}, which is not the name of a curve, is accepted"
        if calls: return D, "bad", f"the curve is changed although {show(name)} is refused"
    return D, "ok", ""


def valid(prog, name):
    """domain parameter conditions of the entry"""
    D, out = select(prog, name)
    for n, v, calls, s in out:
        if v is None or not calls or calls[-1][1] is None: return D, "bad", f"{show(name)} does not define a curve"
        kind, (p, c1, c2, n_, h, gx, gy, bits) = calls[-1]
        if not cm.is_prime(p): return D, "bad", f"{show(name)}: the field modulus is not prime"
        if p < 5: return D, "bad", f"{show(name)}: field too small"
        if cm.singular(kind, p, c1, c2): return D, "bad", f"{show(name)}: the equation is singular"
        if not (0 <= gx < p and 0 <= gy < p): return D, "bad", f"{show(name)}: generator coordinates outside the field"
        if not cm.on_curve(kind, p, c1, c2, (gx, gy)): return D, "bad", f"{show(name)}: the generator is not on the curve"
        if (gx, gy) == cm.neutral(kind, p, c1): return D, "bad", f"{show(name)}: the generator is the neutral element"
        if not cm.is_prime(n_): return D, "bad", f"{show(name)}: the group order is not prime"
        try: r = cm.mul(kind, p, c1, c2, n_, (gx, gy))
        except ValueError: r = "?"
        if r != cm.neutral(kind, p, c1): return D, "bad", f"{show(name)}: the order does not annihilate the generator"
        if h < 1 or abs(n_ * h - p - 1) > 0 and (n_ * h - p - 1) ** 2 > 4 * p: return D, "bad", f"{show(name)}: order times cofactor outside the Hasse interval"
        if bits != p.bit_length(): return D, "bad", f"{show(name)}: bit size {bits}, the field has {p.bit_length()} bits"
        if not cm.complete(kind, p, c1, c2): return D, "bad", f"{show(name)}: the addition law of the entry is not complete"
    return D, "ok", ""


# ------------------------------------------------------------ list of names
def strcpy(it, I, a, st):
    t = text(it, a[1], st)
    if t is None: raise AnalysisBroken("copied text not known")
    o = st.w(a[0][1]); size = o.meta.get("size")
    if size is not None and num(size)[0] == "c" and num(size)[1] < len(t) + 1:
        it.event("bounds", I, f"copy of a {len(t) + 1}-byte text into {num(size)[1]} bytes", st)
    if a[0][2][0] != "c": raise AnalysisBroken("copy to an unknown place")
    for k, ch in enumerate(t + b"\0"): o.cells[add(a[0][2], C(k))] = (1, C(ch if ch < 128 else ch - 256))
    return a[0]


def strdup(it, I, a, st):
    t = text(it, a[0], st)
    if t is None: raise AnalysisBroken("copied text not known")
    p = M["malloc"](it, I, [C(len(t) + 1)], st)
    strcpy(it, I, [p, a[0]], st); return p


def mcpy(it, I, a, st):
    try: t = text(it, a[1], st)
    except AnalysisBroken: t = None
    if t is not None and num(a[2]) == C(len(t) + 1): return strcpy(it, I, a, st)
    return M["memcpy"](it, I, a, st)


def listing(prog):
    ext = dict(MODELS); ext.update({"strcpy": strcpy, "stpcpy": strcpy, "strdup": strdup, "memcpy": mcpy, "llvm.memcpy": mcpy})
    D = Driver(prog, extra=ext); it = D.it; it.unroll = 400; it.maxsteps = 3000000
    na = len(it.aborts)
    out = D.do("_mpECurve_list_standard_curves", [], [D.st0])
    if len(it.aborts) > na: return D, "bad", "the list of names reaches an assertion failure"
    for e in it.live_events():
        if e["kind"] in ("bounds", "uninit-read", "double-free", "use-after-free"): return D, "bad", e["msg"]
    names = table(prog)[1] or {n: 0 for n in refs()}
    for v, s in out:
        if v == ZERO: continue           # no memory
        o = s.r(v[1]); got = []; k = 0
        while True:
            c = s.get(v[1], C(8 * k))
            if c is None: return D, "bad", f"entry {k} of the list of names is never written"
            if c == ZERO: break
            t = text(it, c, s)
            if t is None: return D, "und", f"entry {k} not known"
            got.append(t); k += 1
            if k > 1000: return D, "und", "no end of the list"
        size = o.meta.get("size")
        if size is not None and num(size)[0] == "c" and num(size)[1] < 8 * (k + 1): return D, "bad", f"list of {k + 1} entries in {num(size)[1]} bytes"
        if len(set(got)) != len(got): return D, "bad", "a name is listed twice"
        for n in got:
            if n not in names: return D, "bad", f"{show(n)} is listed and cannot be selected"
        for n in names:
            if n not in got: return D, "bad", f"{show(n)} can be selected and is not listed"
        ptrs = [s.get(v[1], C(8 * j)) for j in range(k)]
        if len({p[1] for p in ptrs if p[1][0] == "M"}) != len([p for p in ptrs if p[1][0] == "M"]): return D, "bad", "two entries share one buffer"
    return D, ("ok" if out else "bad"), ""


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("constant propagation from the table through the selection function, with the looked-up text unknown (one case per text comparison) and with constant texts")
    rep.rule("parameters of each entry: exact arithmetic on the propagated constants (primality, equation, order, Hasse interval, bit size, completeness)")
    rep.rule("the parameters equal the published ones (checks/named_curves.json); texts that are not names are refused and leave the curve alone")
    fns = {}; W = prog.where("mpECurve_set_named")
    obl(rep, "refuse:any-other-text", W, fns, unknown, prog)
    r = table(prog)
    names = sorted(set(refs()) | set(r[1] or ()))
    for n in names:
        nm = n.decode("latin1")
        if n in refs(): obl(rep, f"published:{nm}", W, fns, value, prog, n)
        obl(rep, f"valid:{nm}", W, fns, valid, prog, n)
    known = set(names); R = sorted(refs())
    for k, n in enumerate(R):       # history: other selections, a refused one and the same one before
        prev = (R[(k + 7) % len(R)], b"none", R[(k + 1) % len(R)], n, n)
        obl(rep, f"again:{n.decode('latin1')}", W, fns, value, prog, n, prev)
        obl(rep, f"again-refused:{n.decode('latin1')}", W, fns, refused, prog, n[:-1] + b"_", (n, R[(k + 3) % len(R)]))
    other = {b"", b" ", b"!", b"none", b"ws", b"0"}
    for n in names: other |= {n[:-1], n + b" ", n + b"0", n.swapcase(), b" " + n, n[1:], n.lower(), n.upper()}
    for n in sorted(other - known): obl(rep, f"refuse:{n.decode('latin1')!r}", W, fns, refused, prog, n)
    obl(rep, "list", prog.where("_mpECurve_list_standard_curves"), fns, listing, prog)
    rep.cover["curves"] = [n.decode("latin1") for n in names]
    rep.cover["functions_interpreted"] = fns
