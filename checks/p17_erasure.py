"""P17: sensitive memory is erased before it is released, and the erasure is still there in optimised code."""
import re, shutil, subprocess, tempfile
from scen import *
import llir
import p16_random_source as p16
import p11_signature_bytes as p11
from p11_signature_bytes import scene, P255
from bytelayer import buffer
from models import ptr

OPT = ["-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]
SIZES = ((1, 1), (8, 16), (16, 8), (24, 24), (64, 65), (64, 63), (8, 4096), (4096, 8), (256, 512), (512, 256))
RSIZES = (1, 7, 8, 64, 65, 160, 256, 521, 1024)


def run(rep, tier):
    prog = Program(llir.lib_sources(), llir.LIB_FLAGS + OPT, opt="", olevel="-O2"); rep.units.update(rel(u) for u in prog.units)
    rep.rule("decided on the optimised program (clang -O2), where erasure that the compiler may drop is gone")
    rep.rule("the functions registered with GMP: for every block size and new size, when a block is released or shrunk none of its old bytes is left in it; when it grows the old bytes are moved and erased")
    rep.rule("after clearing a field element, a point or a curve of any type all bytes of the object are zero and the big integers in it were released")
    rep.rule("after a random draw or the import of a signature text, on every path, no buffer holds bytes of it")
    fns = {}
    for f in ("free", "realloc"): obl(rep, f"enable:{f}", prog.where("_enable_gmp_safe_clean"), fns, enabled, prog, f)
    sizes = SIZES if tier != "thorough" else SIZES + tuple((a, b) for a in (1, 8, 40, 136, 1024) for b in (1, 8, 32, 40, 48, 137, 2048))
    for a, b in sizes: obl(rep, f"realloc:{a} to {b} bytes", prog.where("_enable_gmp_safe_clean"), fns, alloc, prog, a, b)
    for a in (1, 8, 24, 200, 4096): obl(rep, f"free:{a} bytes", prog.where("_enable_gmp_safe_clean"), fns, alloc, prog, a, None)
    for f in ("_safe_clean_free", "_safe_clean_realloc"): obl(rep, f"compiled:{f}", prog.where(f), fns, compiled, prog, f)
    for k in ("new", "value"): obl(rep, f"mpFp_clear:{k}", prog.where("mpFp_clear"), fns, clear_fe, prog, k)
    for kind in KINDS:
        for k in ("new", "value", "neutral"): obl(rep, f"mpECP_clear:{kind}:{k}", prog.where("mpECP_clear"), fns, clear_pt, prog, kind, k)
        for k in ("set", "copy"): obl(rep, f"mpECurve_clear:{kind}:{k}", prog.where("mpECurve_clear"), fns, clear_cv, prog, kind, k)
    obl(rep, "mpECurve_clear:new", prog.where("mpECurve_clear"), fns, clear_cv, prog, "ws", "new")
    for b in RSIZES: obl(rep, f"mpz_urandom:{b} bits", prog.where("mpz_urandom"), fns, rnd, prog, b)
    for n in (0, 6, 12, 13, 14): obl(rep, f"import:{n} characters", prog.where("mpECDSASignature_init_import_str"), fns, sigtext, prog, n)
    rep.cover["functions_interpreted"] = fns; rep.cover["block_sizes"] = [list(x) for x in sizes]
    rep.assume.append("the library is built with SAFE_CLEAN, as its configuration does; GMP releases and grows numbers only through the registered functions")


# ---------------------------------------------------------------- the allocator
def handlers(prog, D=None):
    """(realloc, free) as registered with GMP"""
    D = D or Driver(prog); got = []
    def m(it, I, a, st): got.append(tuple(a)); return None
    D.it.models["__gmp_set_memory_functions"] = m
    D.do("_enable_gmp_safe_clean", [], [D.st0.copy()])
    if not got: return D, None
    return D, got[-1]


def enabled(prog, which):
    D, h = handlers(prog)
    if h is None: return D, "bad", "enabling the clean allocator registers nothing"
    v = h[2] if which == "free" else h[1]
    if v == ZERO: return D, "bad", f"enabling the clean allocator leaves GMP's own {which} in place"
    if v[0] != "fn": return D, "und", "registered function not known"
    if v[1] in ("free", "realloc"): return D, "bad", f"the plain {v[1]} is registered"
    return D, "ok", v[1]


def left(o, n=None, tag="secret"):
    """offsets of bytes of the secret that an object still holds"""
    return sorted(k[1] for k, (sz, v) in o.cells.items() if k[0] == "c" and isinstance(v, tuple) and v and v[0] == tag)


def plain_realloc(it, I, a, st):
    """libc's realloc moves the block and releases the old one as it is"""
    n = num(a[1]); oid, off = ptr(a[0]); k = st.fresh((I.fn.name, I.blk, I.idx), "realloc")
    o = st.w(oid); q = ("M", k); new = Obj("malloc", None, "realloc"); new.meta.update(size=n, nonnull=True)
    for c, v in o.cells.items():
        if c[0] == "c" and n[0] == "c" and c[1] + v[0] <= n[1]: new.cells[c] = v
    o.freed = True; st.heap[q] = new
    return ("p", q, ZERO)


def alloc(prog, a, b):
    D = Driver(prog, extra={"realloc": plain_realloc}); it = D.it; it.unroll = 1 << 20; it.maxsteps = 10 ** 7; it.keep_facts = True; it.unroll_counted = True
    _, h = handlers(prog, D)
    v = h and h[2 if b is None else 1]
    if not v or v[0] != "fn": return D, "und", "no function registered"
    st = D.st0
    p = D.obj(st, "block", kind="malloc"); o = st.heap[p[1]]; o.meta["size"] = C(a)
    for i in range(a): o.cells[C(i)] = (1, ("secret", i))
    out = D.do(v[1], [p, C(a)] + ([C(b)] if b is not None else []), [st])
    for e in it.events: return D, "bad", f"{v[1]}: {e}"
    if not out: return D, "bad", f"{v[1]} never returns"
    for r, s in out:
        if b is None and not s.heap[p[1]].freed: return D, "bad", f"{v[1]} does not release the block"
        res = None
        if b is not None:
            if r is None or r[0] != "p" or r[1] not in s.heap or s.heap[r[1]].freed: return D, "bad", f"{v[1]} does not return a live block"
            res = r[1]; sz = s.heap[res].meta.get("size")
            if res != p[1] and not s.heap[p[1]].freed: return D, "bad", f"{v[1]} does not release the old block"
            if sz is not None and sz[0] == "c" and sz[1] < b: return D, "bad", f"{v[1]} returns a block of {sz[1]} bytes for {b}"
            for i in range(min(a, b)):
                if s.get(res, C(i)) != ("secret", i): return D, "bad", f"{v[1]}: byte {i} is lost when a block of {a} bytes becomes one of {b}"
        for oid, o in s.heap.items():
            l = left(o)
            if oid == res: l = [i for i in l if i >= b]
            if l: return D, "bad", f"{v[1]}: {len(l)} of {a} bytes (the first at offset {l[0]}) are still there when the memory " + ("is released" if oid != res else f"of a block shrunk to {b} bytes") 
    return D, "ok", ""




def compiled(prog, fn):
    """the compiler of the build (gcc -O2) keeps an erasing statement before every release"""
    src = next((u for u, m in prog.mods.items() if fn in m.funcs), None)
    if src is None: raise AnalysisBroken(f"function {fn} not found")
    d = tempfile.mkdtemp(prefix="sa_gcc_")
    try:
        r = llir.run(["gcc", "-g", "-O2", "-w", "-c", "-fdump-tree-optimized=" + d + "/t"] + llir.LIB_FLAGS + [src, "-o", d + "/o"])
        if r.returncode: raise AnalysisBroken("gcc failed: " + r.stderr[:300])
        t = open(d + "/t").read()
    finally: shutil.rmtree(d, ignore_errors=True)
    fns = {m.group(1): m.group(2) for m in re.finditer(r"^;; Function \S+ \((\w+),.*?$(.*?)(?=^;; Function |\Z)", t, re.M | re.S)}
    if fn not in fns: return None, "und", "not in the dump"

    def erases(name, seen):
        body = fns.get(name)
        if body is None: return True                      # another unit, or the library: not removed
        if name in seen: return False
        body = body[body.index("{"):] if "{" in body else body
        for line in body.splitlines():
            if re.search(r"memset|bzero|__asm__|=\{v\} ", line): return True
            m = re.match(r"\s*(?:[\w.]+ = )?([\w.]+) \(", line)
            if m and m.group(1) not in ("free", "malloc", "memcpy", "fprintf", "fwrite", "exit", "if", "switch", "return", "memmove", "abort"):
                c = m.group(1)
                if re.match(r"_?[\w.]*_\d+$", c) or c not in fns or erases(c, seen | {name}): return True
        return False
    if not erases(fn, set()): return None, "bad", f"gcc -O2 removes the erasure in {fn}"
    return None, "ok", ""


# ---------------------------------------------------------------- objects
def fields(prog, struct):
    return {k: v for k, v in prog.offsets(struct).items() if v[1]}


def nonzero(prog, s, oid, struct, base=0):
    """the field of the object that is not all zero"""
    for nm, (off, sz) in fields(prog, struct).items():
        for i in range(off, off + sz):
            c = next((v for k, (n, v) in s.r(oid).cells.items() if (k[1] if k[0] in absint.DOMS else k)[0] == "c"
                      and (k[1] if k[0] in absint.DOMS else k)[1] <= base + i < (k[1] if k[0] in absint.DOMS else k)[1] + n), None)
            if c is not None:
                if c != ZERO: return nm
            elif not s.zero_at(oid, C(base + i), 1): return nm
    return None


def released(o):
    for k, v in o.res.items():
        if v == "live": return f"the number at offset {k[1][1] if k[1][0] == 'c' else '?'} is not released"
    return None


def cleared(D, prog, p, struct, out, na, ne, what):
    t = trouble(D, na, ne)
    if t: return D, "bad", f"{what} {t}"
    if not out: return D, "bad", f"{what} never returns"
    for s in out:
        o = s.r(p[1]); b = released(o)
        if b: return D, "bad", f"{what}: {b} and its memory keeps its contents"
        f = nonzero(prog, s, p[1], struct)
        if f: return D, "bad", f"{what}: the {f} of the object keeps its contents"
    return D, "ok", ""


def clear_fe(prog, k):
    D = Driver(prog, drop=("mpFp_clear",)); it = D.it; st = D.st0; fn = "mpFp_clear"; D.fn(fn)
    p = D.obj(st, "a", 24, kind="malloc"); o = st.heap[p[1]]; z = D.mpz(st, "p")
    eo = prog.offsets("_mpFp_struct")
    o.cells[("z", C(eo["i"][0]))] = (16, ("s", "A", 0, "A")); o.res[("z", C(eo["i"][0]))] = "live"; o.cells[C(eo["fp"][0])] = (8, ("p", ("F", ("s", "p", 0, "p")), ZERO))
    na, ne = len(it.aborts), len(it.events)
    return cleared(D, prog, p, "_mpFp_struct", D.dos(fn, [p], [st]), na, ne, fn)


def clear_pt(prog, kind, k):
    D = Curve(prog, kind, {"P": lambda kind, co, pts: pts[0]}); it = D.it; fn = "mpECP_clear"; S = D.S
    P, S = D.point("P", S, neutral=True if k == "neutral" else "blank" if k == "new" else False) if k != "value" else D.point("P", S)
    na, ne = len(it.aborts), len(it.events)
    return cleared(D, prog, P, "_p_mpECP_t", D.dos(fn, [P], S), na, ne, fn)


def clear_cv(prog, kind, k):
    D = Curve(prog, kind, {}); it = D.it; fn = "mpECurve_clear"; S = D.S; c = D.cv
    na, ne = len(it.aborts), len(it.events)
    if k == "new":
        c = D.obj(S[0], "cv2", 1 << 12, kind="malloc"); [s.heap.__setitem__(c[1], S[0].heap[c[1]]) for s in S]
        S = D.dos("mpECurve_init", [c], S)
    elif k != "set":
        c = D.obj(S[0], "cv2", 1 << 12, kind="malloc"); [s.heap.__setitem__(c[1], S[0].heap[c[1]]) for s in S]
        S = D.dos("mpECurve_init", [c], S)
        S = D.dos("mpECurve_set", [c, D.cv], S)
    na, ne = len(it.aborts), len(it.events)
    return cleared(D, prog, c, "_mpECurve_t", D.dos(fn, [c], S), na, ne, fn)


# ---------------------------------------------------------------- buffers
def rnd(prog, b):
    D = Driver(prog, extra=p16.ENV, drop=("mpz_urandom",)); D.fn("mpz_urandom")
    it = D.it; it.unroll = 1 << 20; it.maxsteps = 10 ** 7; it.keep_facts = True; it.malloc_fails = True; it.zbits = {}; it.unroll_counted = True
    st = D.st0; r = D.mpz(st, "r", C(0)); m = ("s", "max", 0, "range"); it.zbits[m] = b; S = [st]; z = D.mpz(st, "max", m)
    for call in (0, 1):
        for s in S: s.ghost["call"] = call; s.ghost["short"] = 0
        out = D.dos("mpz_urandom", [r, z], S)
        if not out: return D, "und", "never returns"
        for s in out:
            for oid, o in s.heap.items():
                l = left(o, tag="rnd")
                if l: return D, "bad", f"{len(l)} random bytes (the first at offset {l[0]}) are left in {o.name} after a draw below a number of {b} bits"
        S = out[:1]
    return D, "ok", ""


def mentions_input(v):
    if not isinstance(v, tuple): return False
    if v[:1] == ("ch",): return True
    return any(mentions_input(x) for x in v if isinstance(x, tuple))


def sigtext(prog, n):
    D, sch, S = scene(prog, 17, P255); it = D.it; fn = "mpECDSASignature_init_import_str"
    sig = D.obj(S[0], "sig", kind="malloc"); [s.heap.__setitem__(sig[1], S[0].heap[sig[1]]) for s in S]
    ch = [("u", 8, ("ch", i)) for i in range(n)]
    buf = buffer(D, S, "input", n + 1, ch + [ZERO], kind="input")
    for s in S:
        for c in ch: s.assume0("ne", c)
    out = D.dos(fn, [sig, sch, buf], S)
    if not out: return D, "und", "never returns"
    for s in out:
        for oid, o in s.heap.items():
            if oid in (buf[1], sig[1]): continue
            l = sorted(k[1] for k, (sz, v) in o.cells.items() if k[0] == "c" and mentions_input(v))
            if l: return D, "bad", f"{len(l)} bytes of the signature (the first at offset {l[0]}) are left in {o.name} after reading a text of {n} characters"
    return D, "ok", f"{len(out)} paths"
