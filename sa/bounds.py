"""Buffer rules laid over the scenarios of the other checks: every access lies inside its object, every element with a caller-made word array has room for it."""
import absint, models, lifetime
from absint import Interp, State
from terms import *
from llir import rel

KINDS = ("out-of-bounds", "small-array")
LIMIT = {"words": 0}


def size_of(o):
    """known size of an object in bytes, or None"""
    if o.kind == "alloca": return o.size
    if o.kind == "malloc":
        s = o.meta.get("size") or (("c", o.meta["cap"]) if "cap" in o.meta else None)
        return s[1] if s is not None and s[0] == "c" else None
    return None


def test(it, I, p, n, st, what):
    if not isinstance(p, tuple) or p[0] != "p" or p[2][0] != "c": return
    o = st.heap.get(p[1])
    if o is None: return
    s = size_of(o)
    if s is not None and n > 0 and (p[2][1] < 0 or p[2][1] + n > s):
        it.event("out-of-bounds", I, f"{n} bytes at offset {p[2][1]} of {o.name} ({s} bytes) are {what}", st)


_store = Interp.store; _load = Interp.load; _fewr = models.fewr


def store(self, I, p, v, ty, st):
    test(self, I, p, I.fn.module.layout.size(ty), st, "written")
    return _store(self, I, p, v, ty, st)


def load(self, I, p, ty, st):
    test(self, I, p, I.fn.module.layout.size(ty), st, "read")
    return _load(self, I, p, ty, st)


def fewr(it, I, p, f, st):
    _fewr(it, I, p, f, st)
    oid, off = p[1], p[2]
    if off[0] != "c" or oid not in st.heap: return
    o = st.heap[oid]; a = o.cells.get(off); d = o.cells.get(add(off, C(8)))
    if a is None or d is None or a[0] != 4 or d[0] != 8 or d[1][0] != "p" or a[1][0] != "c": return
    b = st.heap.get(d[1][1]); s = size_of(b) if b is not None else None
    if s is None or b.kind != "alloca" or d[1][2][0] != "c": return
    room = (s - d[1][2][1]) // 8; n = LIMIT["words"]
    if a[1][1] > room: it.event("small-array", I, f"an element announces {a[1][1]} words in the array {b.name} of {room}", st)
    elif n and room < 2 * n: it.event("small-array", I, f"the array {b.name} of {room} words holds an element of a field whose elements need up to {2 * n}", st)


def wrap(name, parts):
    """model with a bound test in front; parts: [(pointer argument, length of the access from the arguments, what)]"""
    m = models.M.get(name)
    if m is None: return
    def f(it, I, a, st):
        for k, ln, what in parts:
            n = ln(a)
            if k < len(a) and n is not None and n[0] == "c": test(it, I, a[k], n[1], st, what)
        return m(it, I, a, st)
    models.M[name] = f


def install():
    Interp.store = store; Interp.load = load; models.fewr = fewr
    n2 = lambda a: absint.num(a[2])
    for m in ("memset", "llvm.memset"): wrap(m, [(0, n2, "written")])
    for m in ("memcpy", "memmove", "llvm.memcpy", "llvm.memmove"): wrap(m, [(0, n2, "written"), (1, n2, "read")])
    lifetime.collect()


def findings(it): return [e for e in it.live_events() if e["kind"] in KINDS]
