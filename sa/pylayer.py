"""The Python extension: Python objects as heap objects with reference counts, the C API by its documented meaning, the library's
group and field operations by their meaning (as decided by the library's own checks)."""
import glob, os, subprocess
from scen import *
import eclayer as el, ptlayer as pl
from eclayer import eccurve, eqfe, eqpt, canon
from models import zrd, zwr, ptr, ferd, fewr, red, M
from absint import num, Obj
from llir import *

TYPES = {"FieldElement": "FieldElementType", "ECPoint": "ECPointType", "ECurve": "ECurveType", "ECElgamalCiphertext": "ECElgamalCiphertextType",
         "ECDSASignature": "ECDSASignatureType", "ECDSASignatureScheme": "ECDSASignatureSchemeType"}
BUILTIN = {"PyLong_Type": 24, "PyList_Type": 25, "PyTuple_Type": 26, "PyBytes_Type": 27, "PyUnicode_Type": 28, "PyDict_Type": 29, "PyFloat_Type": 0,
           "PyModule_Type": 0, "PyFunction_Type": 0, "digest object": 0}
SINGLE = ("_Py_NoneStruct", "_Py_TrueStruct", "_Py_FalseStruct", "_Py_NotImplementedStruct")
NONE_, TRUE_, FALSE_, NOTIMPL = (("p", ("G", "", n), ZERO) for n in SINGLE)
START = 1000
REFS = LAST = None


def py_program():
    inc = subprocess.run(["python3-config", "--includes"], capture_output=True, text=True).stdout.split()
    src = sorted(glob.glob(os.path.join(REPO, "python", "*.c")))
    if not src: raise AnalysisBroken("no sources of the Python extension")
    return Program(lib_sources() + src, LIB_FLAGS + ["-I", os.path.join(REPO, "python"), "-Dalways_inline=unused"] + inc)   # reference counting stays a call


# ------------------------------------------------------------------ objects
def rc(st, p): return num(st.get(p[1], C(0)))


def new(it, st, tname, **meta):
    k = st.cnt.get("py", 0); st.cnt["py"] = k + 1
    oid = ("I", f"py{k}.{tname}"); o = Obj("malloc", None, f"new {tname}"); o.meta["nonnull"] = True; o.meta.update(meta); o.meta["py"] = tname
    st.heap[oid] = o; p = ("p", oid, ZERO)
    st.put(oid, C(0), 8, ONE); st.put(oid, C(8), 8, ("p", ("G", "", tname), ZERO))
    return p


def typename(st, p):
    t = st.get(p[1], C(8))
    return t[1][2] if isinstance(t, tuple) and t[0] == "p" and t[1][0] == "G" else None


def m_incref(it, I, a, st):
    p = a[0]
    if p == ZERO: return
    v = rc(st, p)
    st.put(p[1], C(0), 8, add(v, ONE))


def m_decref(it, I, a, st):
    p = a[0]
    if p == ZERO: return
    if st.r(p[1]).freed: raise Violation(f"a reference to a released {st.r(p[1]).name} is dropped{pl.at(it, I)}")
    v = add(rc(st, p), C(-1)); st.put(p[1], C(0), 8, v)
    if v != ZERO: return
    return dealloc(it, I, p, st)


def states(r, st): return [st] if r is None else [s for _, s in r]


def dealloc(it, I, p, st):
    n = typename(st, p)
    f = it.D.slot(st, n, "tp_dealloc") if n in TYPES.values() else None
    if f is None:
        S = [st]
        if n == "PyTuple_Type":
            for k in range(st.r(p[1]).meta["n"]):
                q = item(st, p, k)
                if q is None or q == ZERO: continue
                S = [x for s in S for x in states(m_decref(it, I, [q], s), s)]
        for s in S: s.w(p[1]).freed = True
        return None if len(S) == 1 and S[0] is st else [(None, s) for s in S]
    return [(None, e.st) for e in it.call(it.D.fn(f), [p], st)]


def m_alloc(it, I, a, st):
    n = a[0][1][2]; p = new(it, st, n); o = st.w(p[1])
    sz = it.D.prog.offsets("_typeobject")["tp_basicsize"][0]
    size = st.get(a[0][1], C(sz)); size = size[1] if size and size[0] == "c" else 0
    o.zero = o.zero + ((C(16), max(0, size - 16)),); o.meta["size"] = C(size)
    return p


def m_pyfree(it, I, a, st): st.w(a[0][1]).freed = True


def m_subtype(it, I, a, st): return ONE if a[0] == a[1] else ZERO


def m_err(it, I, a, st):
    st.ghost["exc"] = True
    it.D.locals_ok = True


def m_noerr(it, I, a, st): st.ghost["exc"] = False


def item(st, p, i): return st.get(p[1], C(24 + 8 * i))


def m_parse(it, I, a, st):
    fmt = it.cstring(a[1], st); tup = a[0]
    if fmt is None or tup[0] != "p" or "n" not in st.r(tup[1]).meta: raise AnalysisBroken("argument tuple")
    fmt = fmt.decode(); n = st.r(tup[1]).meta["n"]; k = 0; opt = False; j = 2
    for ch in fmt:
        if ch == "|": opt = True; continue
        if ch in ":;": break
        if ch not in "Osilk": raise AnalysisBroken(f"argument format {fmt}")
        if k >= n:
            if opt: break
            st.ghost["exc"] = True; return ZERO
        v = item(st, tup, k); t = typename(st, v); d = a[j]; j += 1; k += 1
        if ch == "O": st.put(d[1], d[2], 8, v)
        elif ch == "s":
            if t != "PyUnicode_Type": st.ghost["exc"] = True; return ZERO
            st.put(d[1], d[2], 8, st.r(v[1]).meta["buf"])
        else:
            if t != "PyLong_Type": st.ghost["exc"] = True; return ZERO
            st.put(d[1], d[2], 4 if ch == "i" else 8, st.r(v[1]).meta["long"])
    if k < n: st.ghost["exc"] = True; return ZERO
    return ONE


def m_tuple_new(it, I, a, st): return new(it, st, "PyTuple_Type", n=num(a[0])[1])
def m_tuple_size(it, I, a, st): return C(st.r(a[0][1]).meta["n"])
def m_tuple_get(it, I, a, st): return item(st, a[0], num(a[1])[1])
def m_tuple_set(it, I, a, st): st.put(a[0][1], C(24 + 8 * num(a[1])[1]), 8, a[2]); return ZERO
def m_long_ul(it, I, a, st): return new(it, st, "PyLong_Type", long=num(a[0]))
def m_null(it, I, a, st): st.ghost["exc"] = True; return ZERO


def m_utf8(it, I, a, st): return st.r(a[0][1]).meta["buf"]


def m_bytes_as(it, I, a, st):
    o = st.r(a[0][1])
    if "buf" not in o.meta: st.ghost["exc"] = True; return C(-1)
    st.put(a[1][1], a[1][2], 8, o.meta["buf"]); st.put(a[2][1], a[2][2], 8, o.meta["len"])
    return ZERO


def text_of(st, p):
    """what a buffer holds: the marks left by the exporting functions, or its constant characters"""
    c = st.heap[p[1]].cells.get(("text", p[2]))
    return c[1] if c else None


def m_from_buf(tname, sized):
    def f(it, I, a, st):
        if a[0][0] != "p": raise AnalysisBroken("text of an unknown buffer")
        s = it.cstring(a[0], st)
        return new(it, st, tname, text=s if s is not None else text_of(st, a[0]), len=num(a[1]) if sized else None)
    return f


def m_format(it, I, a, st):
    return new(it, st, "PyUnicode_Type", fmt=(it.cstring(a[0], st), tuple(a[1:])))


# ------------------------------------------------------------------ conversions, by contract (decided separately)
def long_of(st, p):
    if p[0] != "p" or p[1] not in st.heap: return None
    return st.r(p[1]).meta.get("long") if typename(st, p) == "PyLong_Type" else None


def m_tompz(unsigned):
    def f(it, I, a, st):
        z = long_of(st, a[0])
        if z is None: return C(-1)
        if st.r(a[0][1]).meta.get("huge"): return C(-1)
        if unsigned and st.interval(z)[0] < 0: st.ghost["exc"] = True; return C(-1)
        zwr(it, I, a[1], z, st); return ZERO
    return f


def m_fromz(it, I, a, st): return new(it, st, "PyLong_Type", long=zrd(it, I, a[0], st))
def m_fromfe(it, I, a, st): return new(it, st, "PyLong_Type", long=("int", ferd(it, I, a[0], st)))


CAPI = {"Py_INCREF": m_incref, "Py_XINCREF": m_incref, "Py_DECREF": m_decref, "Py_XDECREF": m_decref, "PyType_GenericAlloc": m_alloc, "PyObject_Free": m_pyfree,
        "PyType_IsSubtype": m_subtype, "PyErr_SetString": m_err, "PyErr_SetNone": m_err, "PyErr_Format": m_null, "PyErr_Clear": m_noerr,
        "PyErr_ExceptionMatches": lambda it, I, a, st: ONE, "PyArg_ParseTuple": m_parse,
        "PyTuple_New": m_tuple_new, "PyTuple_Size": m_tuple_size, "PyTuple_GetItem": m_tuple_get, "PyTuple_SetItem": m_tuple_set,
        "PyLong_FromUnsignedLong": m_long_ul, "PyLong_FromLong": m_long_ul, "PyObject_GenericGetAttr": m_null, "PyUnicode_AsUTF8": m_utf8,
        "PyBytes_AsStringAndSize": m_bytes_as, "PyBytes_FromStringAndSize": m_from_buf("PyBytes_Type", True),
        "PyUnicode_FromStringAndSize": m_from_buf("PyUnicode_Type", True), "PyUnicode_FromString": m_from_buf("PyUnicode_Type", False), "PyUnicode_FromFormat": m_format}
def m_longneg(it, I, a, st):
    m = st.r(a[0][1]).meta; return new(it, st, "PyLong_Type", long=mulc(m["long"], -1), huge=m.get("huge"))


def numbits(it, I, a, st):
    m = st.r(a[0][1]).meta
    if "nbits" not in m: raise AnalysisBroken("length of an unknown integer")
    return C(m["nbits"])


def as_bytes(it, I, a, st):
    """little- or big-endian two's complement of an integer given by its bytes; -1 with an exception if it does not fit"""
    m = st.r(a[0][1]).meta; n, le, sg = (num(x) for x in a[2:5])
    if "bytes" not in m or n[0] != "c" or le[0] != "c" or sg[0] != "c": raise AnalysisBroken("bytes of an unknown integer")
    n, le, sg = n[1], le[1], sg[1]; bs = m["bytes"]; neg = m["neg"]; fill = C(255) if neg else ZERO
    need = m["nbits"] if not sg else m["nbits"] + 1
    if neg and not sg or n * 8 < need: st.ghost["exc"] = True; return C(-1)
    oid, off = ptr(a[1]); o = st.r(oid)
    sz = o.size if o.kind == "alloca" else o.meta["size"][1] if o.meta.get("size", ("", 0))[0] == "c" else None
    if sz is not None and off[0] == "c" and off[1] + n > sz: raise Violation(f"{n} bytes of an integer are written to a buffer of {sz - off[1]} bytes{pl.at(it, I)}")
    for i in range(n):
        st.put(oid, add(off, C(i if le else n - 1 - i)), 1, bs[i] if i < len(bs) else fill)
    return ZERO


def from_bytes(it, I, a, st):
    n, le, sg = (num(x) for x in a[1:4]); oid, off = ptr(a[0])
    if any(x[0] != "c" for x in (n, le, sg)): raise AnalysisBroken("bytes of unknown length")
    t = ZERO; n = n[1]; top = ZERO
    for i in range(n):
        v = st.get(oid, add(off, C(i)))
        if v is None: raise Violation(f"byte {i} of {n} is not initialised{pl.at(it, I)}")
        w = i if le[1] else n - 1 - i; t = add(t, mulc(v, 256 ** w)); top = v if w == n - 1 else top
    if sg[1]:
        if st.interval(top)[1] > 127: raise Violation(f"an unsigned integer of {n} bytes is read as two's complement{pl.at(it, I)}")
    return new(it, st, "PyLong_Type", long=t)


def m_exportb(it, I, a, st):
    order, size, nails = num(a[2]), num(a[3]), num(a[5]); z = zrd(it, I, a[6], st); bs = st.r(a[6][1]).meta.get("bytes")
    if bs is None or size != ONE or nails != ZERO or order not in (ONE, C(-1)): raise AnalysisBroken("export of an unknown integer")
    n = len(bs); oid, off = ptr(a[0]); o = st.r(oid)
    if o.kind == "alloca" and o.size is not None and off[0] == "c" and off[1] + n > o.size: raise Violation(f"{n} bytes are exported to a buffer of {o.size - off[1]} bytes{pl.at(it, I)}")
    for i in range(n): st.put(oid, add(off, C(i if order != ONE else n - 1 - i)), 1, bs[i])
    if a[1] != ZERO: st.put(a[1][1], a[1][2], 8, C(n))
    return a[0]


CAPI.update({"long.__neg__": m_longneg, "_PyLong_NumBits": numbits, "_PyLong_AsByteArray": as_bytes, "_PyLong_FromByteArray": from_bytes})
CAPI["mpFp_realloc"] = lambda it, I, a, st: None
CONV = {"_pylong_to_mpz": m_tompz(False), "_pylong_to_mpz_unsigned": m_tompz(True), "_mpz_to_pylong": m_fromz, "_mpFp_to_pylong": m_fromfe}


# ------------------------------------------------------------------ point bytes and texts by contract
def rec(name, st, *v): st.ghost["log"] = st.ghost.get("log", ()) + ((name,) + v,)


def m_outlen(kind):
    def f(it, I, a, st): return ("u", 32, ("outlen", kind, canon(it, pl.pt_read(it, I, a[0], st), st), it.truth(it.icmp("ne", num(a[1]), ZERO, st), st)))
    return f


def m_out(kind):
    def f(it, I, a, st):
        V = canon(it, pl.pt_read(it, I, a[1], st), st); c = it.truth(it.icmp("ne", num(a[2]), ZERO, st), st)
        o = st.w(a[0][1]); o.cells[("text", a[0][2])] = (0, (kind, V, c))
    return f


def content(st, p):
    """identity of the bytes of a buffer: the object that supplied them"""
    return st.heap[p[1]].meta.get("content", p)


def m_setbytes(kind):
    def f(it, I, a, st):
        ln = num(a[2]) if kind == "bytes" else None; cv = a[3 if kind == "bytes" else 2]
        s2 = st.copy()
        pl.pt_write(it, I, a[0], pl.base(("made from", kind, content(st, a[1]), ln), it.D.nfp), cv, st)
        return [(ZERO, st), (C(-1), s2)]
    return f


def m_setxy(fe):
    def f(it, I, a, st):
        g = (lambda p: ("int", ferd(it, I, p, st))) if fe else (lambda p: zrd(it, I, p, st))
        pl.pt_write(it, I, a[0], pl.base(("made from", "xy", g(a[1]), g(a[2])), it.D.nfp), a[3], st)
    return f


def m_pturandom(it, I, a, st):
    k = st.cnt.get("rand", 0); st.cnt["rand"] = k + 1
    r = it.call(it.D.fn("mpECP_init"), [a[0], a[1]], st)
    for e in r: pl.pt_write(it, I, a[0], pl.base(("random", k), it.D.nfp), a[1], e.st)
    return [(None, e.st) for e in r]


PTS = {"mpECP_out_strlen": m_outlen("str"), "mpECP_out_bytelen": m_outlen("bytes"), "mpECP_out_str": m_out("str"), "mpECP_out_bytes": m_out("bytes"),
       "mpECP_set_str": m_setbytes("str"), "mpECP_set_bytes": m_setbytes("bytes"), "mpECP_set_mpz": m_setxy(False), "mpECP_set_mpFp": m_setxy(True),
       "mpECP_urandom": m_pturandom}


# ------------------------------------------------------------------ hash modules
def m_getdict(it, I, a, st): return st.r(a[0][1]).meta["dict"]
def m_dictget(it, I, a, st): return st.r(a[0][1]).meta["items"].get(it.cstring(a[1], st), ZERO)
def m_utf8bytes(it, I, a, st): return new(it, st, "PyBytes_Type", of=a[0], buf=st.r(a[0][1]).meta["buf"], len=st.r(a[0][1]).meta["len"])


def m_callobj(it, I, a, st):
    x = item(st, a[1], 0)
    if typename(st, x) != "PyBytes_Type" or st.r(x[1]).freed: raise Violation(f"the hash module is called with {typename(st, x)}{pl.at(it, I)}")
    return new(it, st, "digest object", msg=x)


def m_callmethod(it, I, a, st):
    m = st.r(a[0][1]).meta.get("msg")
    if m is None: raise AnalysisBroken("method of an unknown object")
    k = st.cnt.get("dig", 0); st.cnt["dig"] = k + 1; oid = ("I", f"digest{k}"); st.heap[oid] = Obj("input", None, f"digest {k}"); st.heap[oid].meta["nonnull"] = True
    st.ghost["digest"] = m
    return new(it, st, "PyBytes_Type", buf=("p", oid, ZERO), len=C(32))


def m_byteslen(it, I, a, st): return st.r(a[0][1]).meta["len"]


def m_pack(it, I, a, st):
    n = num(a[0])[1]; t = new(it, st, "PyTuple_Type", n=n)
    for i in range(n): st.put(t[1], C(24 + 8 * i), 8, a[1 + i]); m_incref(it, I, [a[1 + i]], st)
    return t


def m_callone(it, I, a, st):
    if typename(st, a[1]) != "PyBytes_Type" or st.r(a[1][1]).freed: raise Violation(f"the hash module is called with {typename(st, a[1])}{pl.at(it, I)}")
    return new(it, st, "digest object", msg=a[1])


def m_bool(it, I, a, st):
    r = it.truth(it.icmp("ne", num(a[0]), ZERO, st), st)
    if r is None: raise AnalysisBroken("truth of an unknown value")
    return TRUE_ if r else FALSE_


def m_occurred(it, I, a, st): return ("p", ("G", "", "PyLong_Type"), ZERO) if st.ghost.get("exc") else ZERO


CAPI.update({"PyErr_Occurred": m_occurred, "PyTuple_Pack": m_pack, "PyObject_CallOneArg": m_callone, "PyBool_FromLong": m_bool})
CAPI.update({"PyModule_GetDict": m_getdict, "PyDict_GetItemString": m_dictget, "PyUnicode_AsUTF8String": m_utf8bytes, "PyObject_CallObject": m_callobj,
             "PyObject_CallMethod": m_callmethod, "PyBytes_Size": m_byteslen, "PyCallable_Check": lambda it, I, a, st: ONE,
             "PyLong_AsLong": lambda it, I, a, st: st.r(a[0][1]).meta["long"]})


class Py:
    """a scene: the curve of the library scenes, Python objects around it"""

    def __init__(self, prog, kind="ws", n=65537, p=(1 << 31) - 1, conv=True):
        global LAST
        LAST = self
        self.made = []; self.prog = prog; self.D = D = eccurve(prog, kind, n, p)
        self.it = D.it; D.it.D = D; D.slot = self.slot; D.prog = prog; self.kind = kind
        D.it.models.update(CAPI); D.it.models.update(PTS)
        if conv: D.it.models.update(CONV)
        old = D.it.unknown_call
        def other_file(name, I, args, st):
            """static functions of another file, reached through a type object"""
            try: f = D.fn(name)
            except AnalysisBroken: return old(name, I, args, st)
            D.it.unknown.pop(name, None)
            return [(e.ret, e.st) for e in D.it.call(f, args, st)]
        D.it.unknown_call = other_file
        self.S = D.S; self.off = prog.offsets("_typeobject")
        for s in self.S:
            for t in TYPES.values(): self.settype(s, t, True)
            for t in BUILTIN: self.settype(s, t, False)
            for o in SINGLE:
                ob = Obj("global", None, o); s.heap[("G", "", o)] = ob; ob.cells[C(0)] = (8, C(START))
        D.it.aborts.clear()

    def settype(self, s, t, own):
        oid = ("G", "", t)
        if own:
            class _F: module = next(iter(self.prog.mods.values()))
            self.it.init_global(oid, _F, s)
            if not s.heap[oid].cells: raise AnalysisBroken(f"type object {t} not found")
        else: s.heap[oid] = Obj("global", None, t)
        s.put(oid, C(0), 8, C(START))
        s.put(oid, C(self.off["tp_alloc"][0]), 8, ("fn", "PyType_GenericAlloc")); s.put(oid, C(self.off["tp_free"][0]), 8, ("fn", "PyObject_Free"))
        if t == "PyLong_Type":
            s.heap[("G", "", "PyLong numbers")] = Obj("global", None, "PyLong numbers"); s.put(oid, C(self.off["tp_as_number"][0]), 8, ("p", ("G", "", "PyLong numbers"), ZERO))
            s.put(("G", "", "PyLong numbers"), C(self.prog.offsets("PyNumberMethods")["nb_negative"][0]), 8, ("fn", "long.__neg__"))
        if not own: s.put(oid, C(self.off["tp_flags"][0]), 8, C(1 << BUILTIN[t] if BUILTIN[t] else 0))

    def slot(self, s, t, name, sub=None, struct=None):
        """name of the function in a slot of a type object"""
        v = s.get(("G", "", t), C(self.off[name][0]))
        if sub and v is not None and v[0] == "p":
            class _F: module = next(iter(self.prog.mods.values()))
            if v[1] not in s.heap: self.it.init_global(v[1], _F, s)
            v = s.get(v[1], add(v[2], C(self.prog.offsets(struct)[sub][0])))
        return v[1] if isinstance(v, tuple) and v[0] == "fn" else None

    def method(self, t, name):
        s = self.S[0]; v = s.get(("G", "", t), C(self.off["tp_methods"][0]))
        if v is None or v[0] != "p": return None
        class _F: module = next(iter(self.prog.mods.values()))
        if v[1] not in s.heap: self.it.init_global(v[1], _F, s)
        for k in range(64):
            q = s.get(v[1], add(v[2], C(32 * k)))
            if q is None or q[0] != "p": return None
            if self.it.cstring(q, s) == name.encode():
                f = s.get(v[1], add(v[2], C(32 * k + 8))); return f[1] if f[0] == "fn" else None

    # ---- objects made by the scene
    def share(self, p):
        for s in self.S[1:]: s.heap[p[1]] = self.S[0].heap[p[1]]

    def make(self, name, t, **meta):
        p = self.D.obj(self.S[0], name, kind="malloc"); self.share(p); self.made.append(p)
        o = self.S[0].heap[p[1]]; o.meta.update(meta); o.meta["py"] = t
        for s in self.S:
            s.put(p[1], C(0), 8, C(START)); s.put(p[1], C(8), 8, ("p", ("G", "", t), ZERO))
            if t in TYPES.values(): s.put(p[1], C(self.fld(t[:-4], "ready")), 4, ZERO)
        return p

    def eqpt(self, V, W, s):
        """equal, or the combination is known to be neutral on this path"""
        if eqpt(V, W): return True
        return V.zero() and s.rng.get(("ptn", W), (0,))[0] >= 1

    def fld(self, typ, f): return self.prog.offsets(typ)[f][0]

    def long(self, name, term=None, lo=None, hi=None, **meta):
        t = term if term is not None else ("s", name, 0, name)
        p = self.make("long " + name, "PyLong_Type", long=t, **meta)
        if lo is not None:
            for s in self.S: s.assume0("sge", add(t, C(-lo)))
        return p

    def fe(self, name, fp=None, f=None):
        fp = fp or self.D.nfp; f = f or FE(Poly.var(("s", name, 0, name)), ONEP, fp)
        p = self.make("field element " + name, "FieldElementType"); o = self.fld("FieldElement", "fe")
        for s in self.S:
            ob = s.w(p[1]); ob.cells[("fe", C(o))] = (16, f); ob.cells[C(o + 16)] = (8, f.fp); ob.res[("fe", C(o))] = "live"
            s.put(p[1], C(self.fld("FieldElement", "ready")), 4, ONE)
        return p, f

    def curve(self, name, **over):
        p = self.make("curve " + name, "ECurveType"); o = self.fld("ECurve", "ec"); D = self.D
        cv = ("p", p[1], C(o)); z = dict(D.zp); z.update(over)
        self.S = D.dos("mpECurve_init", [cv], self.S)
        r = D.do(SETTER[self.kind][0], [cv, z["p"], z["1"], z["2"], z["n"], z["h"], z["Gx"], z["Gy"], C(31)], self.S)
        self.S = [s for v, s in r if v == ZERO]
        if not self.S: raise AnalysisBroken("no accepting path for the curve")
        for s in self.S: s.put(p[1], C(self.fld("ECurve", "ready")), 4, ONE)
        return p, cv

    def point(self, name, cvobj, V=None):
        p = self.make("point " + name, "ECPointType"); q = ("p", p[1], C(self.fld("ECPoint", "ecp"))); pc, cv = cvobj
        self.S = self.D.dos("mpECP_init", [q, cv], self.S); V = V if V is not None else pl.base(name, self.D.nfp)
        for s in self.S:
            pl.pt_write(self.it, None, q, canon(self.it, V, s), cv, s)
            if not V.zero(): s.rng[("ptn", canon(self.it, V, s))] = (0, 0, frozenset())
            s.put(p[1], C(self.fld("ECPoint", "cv")), 8, pc); s.put(p[1], C(self.fld("ECPoint", "ready")), 4, ONE)
        return p, V

    def text(self, name, t="PyUnicode_Type"):
        b = self.D.obj(self.S[0], "characters of " + name, kind="input"); self.share(b)
        return self.make("text " + name, t, buf=b, len=("s", "len " + name, 0, "len")), b

    def tuple(self, name, items):
        p = self.make("tuple " + name, "PyTuple_Type", n=len(items))
        for i, x in enumerate(items):
            for s in self.S: s.put(p[1], C(24 + 8 * i), 8, x); s.put(p[1], C(16), 8, C(len(items)))
        return p

    # ---- results
    def call(self, f, args):
        if f is None: raise AnalysisBroken("the operation is not in the type's table")
        for s in self.S: s.ghost["exc"] = False
        R = [(v, s) for v, s in self.D.do(f, args, self.S) if not el.infeasible(s)]
        if REFS is not None:
            init = any(self.slot(self.S[0], t, "tp_init") == f for t in TYPES.values())
            for v, s in R: self.refs(v, s.copy(), args[0] if init else None)
        return R

    def refs(self, v, s, o):
        """after what the call returned or filled in has been released again, no argument has lost a reference"""
        S = [s]; it = self.it; name = lambda p: s.heap[p[1]].name
        if o is not None: S = [x for q in S for x in states(dealloc(it, None, o, q), q)]
        elif isinstance(v, tuple) and v[0] == "p" and v[1] in s.heap and "py" in s.heap[v[1]].meta:
            if s.r(v[1]).freed or rc(s, v)[1] < 1: raise Violation("the object returned is already released")
            S = [x for q in S for x in states(m_decref(it, None, [v], q), q)]
        for q in S:
            if el.infeasible(q): continue
            REFS.append(1)
            for p in self.made:
                if p == o: continue
                if q.r(p[1]).freed or rc(q, p)[1] < START: raise Violation(f"a call, and releasing its result, takes {START - rc(q, p)[1]} reference(s) of '{name(p)}' it does not own")

    def rd_fe(self, p, s): return ferd(self.it, None, ("p", p[1], C(self.fld("FieldElement", "fe"))), s)
    def rd_pt(self, p, s):
        q = ("p", p[1], C(self.fld("ECPoint", "ecp")))
        return canon(self.it, pl.pt_read(self.it, None, q, s), s), pl.pt_curve(self.it, q, s)
