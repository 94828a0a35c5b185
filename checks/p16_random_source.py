"""P16: random values come only from complete reads of the system source, enough bytes, made for that call alone."""
from scen import *
import limblayer as ll
from limblayer import Limbs, V, P, B
import ptlayer as pl
from ptlayer import PT
from p02_scalar_mult import ptcurve, genpoint, order
from models import ptr, zwr, zrd

SOURCES = ("/dev/urandom", "/dev/random")
SIZES = (1, 2, 7, 8, 9, 16, 63, 64, 65, 112, 160, 224, 255, 256, 384, 521, 1024)


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("every path on which a random integer is delivered: it is the reduction to the range of a number made of at least twice as many bytes as the range needs, each one read from the system random device during that call")
    rep.rule("short reads (nothing, part, all but one), a device that cannot be opened and failing allocations are followed on every call: no such path delivers a value unless the rest was read as well")
    rep.rule("no stream that may hold bytes read ahead stays open after a call")
    rep.rule("random field elements and points are the whole random integer, drawn below the modulus or the group order")
    fns = {}
    sizes = SIZES if tier != "thorough" else tuple(range(1, 140)) + (159, 160, 161, 191, 192, 193, 223, 224, 225, 255, 256, 257, 383, 384, 385, 511, 512, 513, 520, 521, 522, 768, 1023, 1024)
    for b in sizes: obl(rep, f"mpz_urandom:{b} bits", prog.where("mpz_urandom"), fns, source, prog, [b])
    for bs in ((64, 521, 8), (256, 256, 256), (1024, 1, 160)): obl(rep, "mpz_urandom:calls for " + ",".join(map(str, bs)) + " bits", prog.where("mpz_urandom"), fns, source, prog, bs)
    for n in (1, 2, 4, 16): obl(rep, f"mpFp_urandom:{n}w", prog.where("mpFp_urandom"), fns, field, prog, n)
    for kind in KINDS: obl(rep, f"mpECP_urandom:{kind}", prog.where("mpECP_urandom"), fns, point, prog, kind)
    rep.cover["functions_interpreted"] = fns; rep.cover["range_sizes"] = list(sizes)
    rep.assume.append("scalar multiplication as decided by P02")


# ---------------------------------------------------------------- the environment
def stop(it, I, msg):
    f, l = it.p.loc(I); raise Violation(f"{msg} at {rel(f)}:{l}")


def newstream(it, I, st, path, buffered):
    k = st.fresh(("stream",), "")
    oid = ("M", ("stream", k[2])); o = Obj("malloc", None, "stream"); o.meta["nonnull"] = True; st.heap[oid] = o
    st.ghost[("stream", oid)] = (path, buffered, True, False)
    return ("p", oid, ZERO)


def m_fopen(it, I, a, st):
    path = it.cstring(a[0], st)
    if path is None: raise AnalysisBroken("name of the random device not constant")
    s2 = st.copy()
    return [(newstream(it, I, st, path.decode(), True), st), (ZERO, s2)]


def m_open(it, I, a, st):
    path = it.cstring(a[0], st)
    if path is None: raise AnalysisBroken("name of the random device not constant")
    s2 = st.copy(); n = st.ghost.get("nfd", 0); st.ghost["nfd"] = n + 1
    st.ghost[("stream", n + 3)] = (path.decode(), False, True, False)
    return [(C(n + 3), st), (C(-1), s2)]


def stream(it, I, v, st):
    k = v[1] if v[0] in ("p", "c") else None
    s = st.ghost.get(("stream", k))
    if v == ZERO: stop(it, I, "a device that was not opened is read")
    if s is None: raise AnalysisBroken("unknown stream")
    return k, s


def m_setvbuf(it, I, a, st):
    k, s = stream(it, I, a[0], st)
    nm = I.x["callee"][1]; none = num(a[2]) == C(2) if nm == "setvbuf" else a[1] == ZERO
    if not s[3]: st.ghost[("stream", k)] = (s[0], not none, s[2], s[3])
    return ZERO


def m_close(it, I, a, st):
    k, s = stream(it, I, a[0], st)
    st.ghost[("stream", k)] = (s[0], s[1], False, s[3]); return ZERO


def fill(it, I, st, buf, n):
    """n fresh random bytes"""
    oid, off = ptr(buf)
    if n == 0: return
    if off[0] != "c": raise AnalysisBroken("bytes stored at an unknown offset")
    o = st.r(oid)
    if o.freed: stop(it, I, "bytes are read into released memory")
    k = st.ghost.get("reads", 0); st.ghost["reads"] = k + 1
    for i in range(n): st.put(oid, C(off[1] + i), 1, ("rnd", st.ghost.get("call", 0), k, i))


def amounts(st, n):
    """how many of n bytes a read may give; at most two short reads per call are followed"""
    if n == 0: return [0]
    if st.ghost.get("short", 0) >= 2: return [n]
    return sorted({n, 0, n - 1, n // 2}, reverse=True)


def got(it, I, st, buf, n, ret, err=()):
    out = []
    for k in amounts(st, n):
        s = st.copy()
        if k < n: s.ghost["short"] = s.ghost.get("short", 0) + 1
        fill(it, I, s, buf, k); out.append((ret(k), s))
    if st.ghost.get("short", 0) < 2:
        for e in err:
            s = st.copy(); s.ghost["short"] = s.ghost.get("short", 0) + 1; out.append((e, s))
    return out


def const(t, what):
    t = num(t)
    if t[0] != "c": raise AnalysisBroken(f"{what} not constant")
    return t[1]


def use(it, I, v, st):
    k, s = stream(it, I, v, st)
    if not s[2]: stop(it, I, "a closed device is read")
    if s[0] not in SOURCES: stop(it, I, f"random bytes are read from {s[0]}")
    st.ghost[("stream", k)] = (s[0], s[1], s[2], True)
    return s


def m_fread(it, I, a, st):
    sz, n = const(a[1], "item size"), const(a[2], "item count")
    use(it, I, a[3], st)
    if sz < 0 or n < 0: stop(it, I, "a read of a negative size")
    return got(it, I, st, a[0], sz * n, lambda k: C(k // sz if sz else 0))


def m_read(it, I, a, st):
    n = const(a[2], "byte count"); use(it, I, a[0], st)
    return got(it, I, st, a[1], n, C, (C(-1),))


def m_getrandom(it, I, a, st): return got(it, I, st, a[0], const(a[1], "byte count"), C, (C(-1),))


def m_getentropy(it, I, a, st):
    n = const(a[1], "byte count"); s = st.copy(); out = [(C(-1), s)]
    if n <= 256: fill(it, I, st, a[0], n); out.append((ZERO, st))
    return out


def m_fgetc(it, I, a, st):
    use(it, I, a[0], st); out = []
    k = st.ghost.get("reads", 0); s = st.copy(); st.ghost["reads"] = k + 1; out.append((("rnd", st.ghost.get("call", 0), k, 0), st))
    if s.ghost.get("short", 0) < 2: s.ghost["short"] = s.ghost.get("short", 0) + 1; out.append((C(-1), s))
    return out


def m_arc4(it, I, a, st): fill(it, I, st, a[0], const(a[1], "byte count"))


def m_import(it, I, a, st):
    n = const(a[1], "item count") * const(a[3], "item size")
    if num(a[5]) != ZERO: raise AnalysisBroken("nails")
    oid, off = ptr(a[6])
    if off[0] != "c": raise AnalysisBroken("bytes at an unknown offset")
    o = st.r(oid)
    if o.freed: stop(it, I, "released memory becomes the random value")
    bs = []
    for i in range(n):
        v = st.get(oid, C(off[1] + i))
        if v is None and st.zero_at(oid, C(off[1] + i), 1): v = ZERO
        if v is None: stop(it, I, f"byte {i} of the random value was never read")
        bs.append(v)
    zwr(it, I, a[0], ("imp", tuple(bs)), st)


def m_mod(it, I, a, st): zwr(it, I, a[0], ("rmod", zrd(it, I, a[1], st), zrd(it, I, a[2], st)), st)


def m_sizeinbase(it, I, a, st):
    z = zrd(it, I, a[0], st); b = const(a[1], "base")
    n = it.zbits.get(z)
    if n is None: raise AnalysisBroken("size of an unknown number")
    if b < 2 or b & (b - 1): raise AnalysisBroken("size in another base")
    k = b.bit_length() - 1; return C(max(1, (n + k - 1) // k))


def m_size(it, I, a, st): return C((const(m_sizeinbase(it, I, [a[0], C(2)], st), "") + 63) // 64)


ENV = {"fopen": m_fopen, "fopen64": m_fopen, "open": m_open, "open64": m_open, "setvbuf": m_setvbuf, "setbuf": m_setvbuf, "fclose": m_close, "close": m_close, "fread": m_fread, "fread_unlocked": m_fread,
       "read": m_read, "getrandom": m_getrandom, "getentropy": m_getentropy, "fgetc": m_fgetc, "getc": m_fgetc, "arc4random_buf": m_arc4, "__gmpz_import": m_import,
       "__gmpz_mod": m_mod, "__gmpz_fdiv_r": m_mod, "__gmpz_tdiv_r": m_mod, "__gmpz_sizeinbase": m_sizeinbase, "__gmpz_size": m_size}


# ---------------------------------------------------------------- obligations
def source(prog, bits):
    D = Driver(prog, extra=ENV, drop=("mpz_urandom",)); D.fn("mpz_urandom")
    it = D.it; it.unroll = 1 << 20; it.maxsteps = 10 ** 7; it.keep_facts = True; it.malloc_fails = True; it.zbits = {}; it.unroll_counted = True
    st = D.st0
    S = [st]; r = D.mpz(st, "r", C(0)); ms = []
    for i, b in enumerate(bits):
        m = ("s", f"max{i}", 0, "range"); it.zbits[m] = b; ms.append(D.mpz(st, f"max{i}", m))
    npaths = 0
    for i, b in enumerate(bits):
        for s in S: s.ghost["call"] = i; s.ghost["short"] = 0
        ne = len(it.events)
        out = D.dos("mpz_urandom", [r, ms[i]], S)
        for e in it.events[ne:]:
            if e[0] in ("use-after-free", "double-free"): return D, "bad", str(e)
        if not out: return D, "bad", f"call {i + 1} (a range of {b} bits) never delivers a value"
        full = [s for s in out if s.ghost["short"] == 0]
        if not full: return D, "bad", f"call {i + 1} (a range of {b} bits) delivers nothing although every read was complete"
        seen = {}
        for s in out:
            npaths += 1
            bad = judge(it, s, r, ("s", f"max{i}", 0, "range"), b, i)
            if bad: return D, "bad", bad + (f" (call {i + 1})" if i else "")
            for k, v in s.ghost.items():
                if isinstance(k, tuple) and k[0] == "stream" and v[1] and v[2] and v[3]:
                    return D, "bad", f"a buffered stream of {v[0]} stays open after the call: bytes read ahead are shared with later calls and child processes"
            seen.setdefault((s.ghost["short"] > 0,), s)
        S = [s for s in out if s.ghost["short"] == 0][:1]
        for s in S: s.heap[r[1]] = s.r(r[1])
    return D, "ok", f"{npaths} paths"


def judge(it, s, r, m, b, call):
    v = s.get(r[1], ZERO, dom="z"); need = 2 * ((b + 7) // 8)
    what = f"a range of {b} bits"
    if v is None or v[0] == "c": return f"{what}: a path delivers " + ("nothing" if v is None else f"the constant {v[1]}")
    if v[0] == "imp": return f"{what}: the random number is not reduced to the range"
    if v[0] != "rmod": raise AnalysisBroken("form of the random value not recognised")
    if v[2] != m: return f"{what}: the random number is reduced by another number"
    if v[1][0] != "imp": raise AnalysisBroken("form of the random value not recognised")
    bs = [x for x in v[1][1] if x[0] == "rnd"]
    if any(x[0] not in ("rnd", "c") for x in v[1][1]): raise AnalysisBroken("form of the random bytes not recognised")
    old = [x for x in bs if x[1] != call]
    if old: return f"{what}: {len(old)} bytes were read for an earlier call"
    if len(set(bs)) < need: return f"{what}: the value is made of {len(set(bs))} random bytes, {need} are needed" + (" (after a short read)" if s.ghost["short"] else "")
    return None


def field(prog, n):
    """the element is the random integer, drawn with the modulus as range"""
    D = Limbs(prog, n); it = D.it; st = D.st0; D.fn("mpFp_urandom")
    it.bounds["R"] = (ZERO, sub(P, ONE)); it.samples = ll.samples(n, {"R": "r", "C2": lambda p, r: [0, 5, B - 1]})
    draws = []
    def random(I, a, st):
        if ll.zget(it, I, st, a[1]) != P: stop(it, I, "the range of a random field element is not the modulus")
        k = st.ghost.get("draws", 0); st.ghost["draws"] = k + 1; draws.append(k)
        it.bounds[f"R{k}"] = (ZERO, sub(P, ONE))
        return V("R") if k == 0 else V(f"R{k}")
    it.random = random
    c = D.obj(st, "c", 24, kind="alloca"); S = [s for _, s in D.do("mpFp_init_fp", [c, D.field], [st])]
    S = D.dos("mpFp_urandom", [c, D.zp], S)
    if not S: return D, "und" if it.doubt else "bad", it.doubt or "never returns"
    for s in S:
        pb, x = D.read(s, c)
        if pb: return D, "bad", f"a random element: {pb}"
        if x == V("R"): continue
        if ll.entails(it, s, sub(x, V("R"))) and ll.entails(it, s, sub(V("R"), x)): continue
        if x[0] == "v" and x[1].startswith("R"): continue
        w = ll.witness(it, s)
        try:
            if w is not None and w.ev(x) != w.v["R"]: return D, "bad", f"a random element is {hex(w.ev(x))} when the random integer is {hex(w.v['R'])}"
        except ll.NoValue: pass
        return D, "und", "value of the random element not decided"
    if it.doubt: return D, "und", it.doubt
    return D, "ok", ""


def point(prog, kind):
    fn = "mpECP_urandom"; n = order(9)
    D = ptcurve(prog, kind, n, (1 << 61) - 1); it = D.it; S = D.S; D.fn(fn)
    def draw(it, I, z, k, st):
        if z != C(n): stop(it, I, f"the scalar of a random point is drawn below {'another number' if z[0] != 'c' else z[1]}, not the group order")
    it.on_random = draw
    G, S = genpoint(D, S)
    R, S = D.point("R", S, neutral="blank")
    na, ne = len(it.aborts), len(it.events)
    out = D.dos(fn, [R, D.cv], S)
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"{fn} {t}"
    if not out: return D, "bad", f"{fn} never returns"
    for s in out:
        X = pl.pt_read(it, None, R, s)
        vs = {b[1] for c in X.d.values() for b in c.n.vars() if b[0] == "bit"}
        if set(X.d) != {"G"} or len(vs) != 1: return D, "bad", f"a random point is {X!r}, not a random multiple of the generator"
        src = vs.pop()
        if pl.single(src[1]) is None or pl.single(src[1])[0] != "rand": return D, "und", "random scalar not recognised"
        if not pl.congruent(X, PT({"G": FE(Poly({((a, 1),): c for a, c in lin_parts(pl.bsum(src[1]))[1].items()}), ONEP, None)}), n):
            return D, "bad", "a random point is not the multiple of the generator by the whole random scalar"
    return D, "ok", ""
