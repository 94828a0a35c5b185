"""P15: one field descriptor per modulus, for every history of lookups, valid until the process ends."""
import random
from scen import *
import limblayer as ll
from limblayer import Limbs, V, P, B, know, entails, feasible, witness, zget, zput

LOOK = "_mpFp_field_lookup"


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("for every sequence of lookups from the empty registry: two lookups give the same descriptor exactly when the moduli are equal")
    rep.rule("the descriptor holds the modulus, its size and twice its size; it owns them: changing or clearing the caller's number afterwards changes nothing")
    rep.rule("no library operation releases or changes a published descriptor; at process exit each is released once")
    fns = {}; w = prog.where(LOOK)
    for n in (1, 2, 3, 16): obl(rep, f"sequence:3 unknown moduli of {n} words", w, fns, unknown, prog, n, 3)
    obl(rep, "sequence:4 unknown moduli of 1 words", w, fns, unknown, prog, 1, 4)
    if tier == "thorough": obl(rep, "sequence:5 unknown moduli of 2 words", w, fns, unknown, prog, 2, 5)
    for k in ("close", "sizes", "many", "again"): obl(rep, f"history:{k}", w, fns, long_, prog, k, 120 if tier != "thorough" else 400)
    for k in ("changed", "cleared", "reused"):
        for n in (1, 4): obl(rep, f"caller's number {k}:{n}w", w, fns, caller, prog, n, k)
    obl(rep, "exit", w, fns, atexit_, prog, 4)
    obl(rep, "exit:one", w, fns, atexit_, prog, 1)
    for op in OPS: obl(rep, f"descriptor unchanged:{op}", prog.where(op), fns, kept, prog, op)
    rep.cover["functions_interpreted"] = fns


def limbs(prog, n):
    D = Limbs(prog, n, drop=(LOOK,)); D.fn(LOOK); it = D.it; it.exits = []
    def m_exit(it, I, a, st):
        st.ghost["atexit"] = st.ghost.get("atexit", ()) + (a[0],); return C(0)
    it.models["atexit"] = it.models["__cxa_atexit"] = m_exit
    it.unroll_pointers = True
    it.samples = [ll.Sample({"p": 5})]
    return D


def look(D, z, S):
    return D.do(LOOK, [z], S)


def descr(D, st, f, X, n):
    """problem with the descriptor of the modulus X of n words"""
    it = D.it; fo = D.fo
    if f[0] != "p" or f[1] not in st.heap: return "no descriptor is returned"
    if st.r(f[1]).freed: return "a released descriptor is returned"
    base = f[2][1]
    for k, v in (("psize", n), ("p2size", 2 * n)):
        x = st.get(f[1], C(base + fo[k]))
        if x != C(v): return f"{k} of the descriptor is {x[1] if x and x[0] == 'c' else 'not set'}, not {v}"
    hdr = ("p", f[1], C(base + fo["p"]))
    z = st.get(f[1], C(base + fo["p"]), dom="z")
    b = st.get(f[1], C(base + fo["p"] + 8))
    if b is None or b[0] != "p" or b[1] not in st.heap: return "the modulus of the descriptor has no words"
    if st.r(b[1]).freed: return "the words of the descriptor's modulus were released"
    v = zget(it, None, st, hdr)
    if v == X: return None
    d = sub(v, X)
    if entails(it, st, d) and entails(it, st, mulc(d, -1)): return None
    w = witness(it, st)
    if w is None and v[0] != "c": raise AnalysisBroken("value of the descriptor's modulus not decided")
    try:
        if w is not None and w.ev(v) == w.ev(X): raise AnalysisBroken("value of the descriptor's modulus not decided")
    except ll.NoValue: raise AnalysisBroken("value of the descriptor's modulus not decided")
    return "the modulus of the descriptor is not the one that was looked up"


def unknown(prog, n, k):
    D = limbs(prog, n); it = D.it; st = D.st0
    names = [f"m{i}" for i in range(k)]
    for nm in names: it.bounds[nm] = (C(max(2, B ** (n - 1))), C(B ** n - 1))
    zs = [D.zobj(st, nm, V(nm), n) for nm in names]
    rnd = random.Random(7); vals = [B ** n - 1, B ** n - 3, B ** n - 1 - B ** (n - 1), max(2, B ** (n - 1)), max(2, B ** (n - 1)) + 1] + [rnd.randrange(B ** (n - 1) + 2, B ** n) for _ in range(2)]
    it.samples = []
    for _ in range(600):
        pool = [rnd.choice(vals) for _ in range(rnd.randrange(1, k + 1))]
        it.samples.append(ll.Sample({"p": 5, **{nm: rnd.choice(pool) for nm in names}}))
    it.shown = names
    R = [((), st)]
    for z in zs:
        N = []
        for fs, s in R:
            for f, s2 in look(D, z, [s]): N.append((fs + (f,), s2))
        R = N
    if not R and not it.doubt: return D, "bad", "never returns"
    und = it.doubt
    for fs, s in R:
        if not feasible(it, s): continue
        for i in range(k):
            b = descr(D, s, fs[i], V(names[i]), n)
            if b: return D, "bad", b
            for j in range(i):
                d = sub(V(names[i]), V(names[j])); same = fs[i] == fs[j]
                eq = entails(it, s, d) and entails(it, s, mulc(d, -1))
                ne = entails(it, s, sub(d, ONE)) or entails(it, s, sub(C(-1), d))
                if same and eq or not same and ne: continue
                for w in it.samples:
                    try:
                        if w.satisfies(s) and (w.ev(V(names[i])) == w.ev(V(names[j]))) != same:
                            return D, "bad", ("two different moduli get the same descriptor: " if same else "one modulus gets two descriptors: ") + ll.show(w, names[j], names[i])
                    except ll.NoValue: pass
                und = und or "equality of two moduli not decided"
    if und: return D, "und", und
    return D, "ok", f"{len(R)} orders of the moduli"


def moduli(kind, k):
    rnd = random.Random(11)
    if kind == "close":       # differ in one word only, or by one
        base = [rnd.randrange(1, B) for _ in range(6)]; out = []
        for i in range(6):
            for d in (1, 1 << 32, 1 << 62, (1 << 64) - 1):
                x = list(base); x[i] ^= d; x[i] = x[i] or 1; out.append(sum(v * B ** j for j, v in enumerate(x)))
        out.append(sum(v * B ** j for j, v in enumerate(base)))
        out += [sum(v * B ** j for j, v in enumerate(base[:i])) for i in range(1, 6)] + [sum(v * B ** j for j, v in enumerate(reversed(base)))]
        out += [sum(v * B ** j for j, v in enumerate(base)) ^ (B ** i) ^ (B ** (i + 1)) for i in range(5)]
        return list(dict.fromkeys(out))
    if kind == "sizes":
        return [x for n in range(1, 17) for x in (B ** n - 1, B ** (n - 1) + (n == 1) * 2, B ** n - 189, B ** n // 2 + 1)]
    if kind == "many": return [2 * i + 3 for i in range(k)] + [B ** (1 + i % 16) - 2 * i - 5 for i in range(k)]
    return [5, 2 ** 255 - 19, 7, 2 ** 521 - 1, 2 ** 127 - 1]


def long_(prog, kind, k):
    D = limbs(prog, 1); it = D.it; it.rounds = 10 ** 6; it.unroll = 10 ** 6; it.maxsteps = 10 ** 7; st = D.st0
    ms = moduli(kind, k); zs = [D.zobj(st, f"m{i}", C(m), (m.bit_length() + 63) // 64) for i, m in enumerate(ms)]
    got = {}; seq = list(range(len(ms))); rnd = random.Random(3)
    if kind == "again": seq = [rnd.randrange(len(ms)) for _ in range(60)]
    elif kind == "many": seq = seq + [0, len(ms) - 1, 1, len(ms) // 2, 17, 0] + rnd.sample(seq, 12)
    else: seq = seq + rnd.sample(seq, len(seq))
    for i in seq:
        n = (ms[i].bit_length() + 63) // 64
        R = look(D, zs[i], [st])
        if len(R) != 1:
            if not R and it.doubt: return D, "und", it.doubt
            return D, "bad" if not R else "und", f"a lookup of {hex(ms[i])} has {len(R)} outcomes"
        f, st = R[0]
        b = descr(D, st, f, C(ms[i]), n)
        if b: return D, "bad", f"{b}: lookup of {hex(ms[i])} after {len(got)} other moduli"
        if i in got and got[i] != f: return D, "bad", f"a second descriptor for {hex(ms[i])} after {len(got)} moduli"
        o = next((j for j in got if j != i and got[j] == f), None)
        if o is not None: return D, "bad", f"the descriptor of {hex(ms[o])} is returned for {hex(ms[i])}"
        got[i] = f
    for i, f in got.items():
        b = descr(D, st, f, C(ms[i]), (ms[i].bit_length() + 63) // 64)
        if b: return D, "bad", f"after the history: {b} (modulus {hex(ms[i])})"
    return D, "ok", f"{len(seq)} lookups of {len(got)} moduli"


def caller(prog, n, how):
    """what the caller does with its number afterwards does not matter"""
    D = limbs(prog, n); it = D.it; it.unroll = 10 ** 6; st = D.st0
    x, y = B ** n - 17, B ** n - 5
    S = [st]; z = D.obj(st, "z", 16, kind="alloca"); t = D.zobj(st, "t", C(x), n); u = D.zobj(st, "u", C(y), n); w = D.zobj(st, "w", C(x), n)
    S = D.dos("__gmpz_init_set", [z, t], S)
    R = look(D, z, S)
    if len(R) != 1: return D, "und", "several outcomes"
    f, st = R[0]; S = [st]
    if how == "changed": S = D.dos("__gmpz_set", [z, u], S)
    elif how == "cleared": S = D.dos("__gmpz_clear", [z], S)
    else: S = D.dos("__gmpz_add_ui", [z, z, C(12)], S)
    b = descr(D, S[0], f, C(x), n)
    if b: return D, "bad", f"{b} (the caller's number was {how})"
    out = []
    for q, v in ((u, y), (w, x)):
        R = look(D, q, S)
        if len(R) != 1: return D, "und", "several outcomes"
        g, st = R[0]; S = [st]
        b = descr(D, st, g, C(v), n)
        if b: return D, "bad", f"{b} (the caller's first number was {how})"
        out.append(g)
    if out[1] != f: return D, "bad", f"a second descriptor for a modulus whose first number was {how}"
    if out[0] == f: return D, "bad", f"the descriptor of another modulus is returned after the caller's number was {how}"
    return D, "ok", ""


def atexit_(prog, k):
    """at the end each descriptor is released once and nothing is used afterwards"""
    D = limbs(prog, 2); it = D.it; it.unroll = 10 ** 6; it.cycles = None; st = D.st0; S = [st]
    zs = [D.zobj(st, f"m{i}", C(B ** 2 - 1 - 2 * i), 2) for i in range(k)]
    fs = []
    for z in zs:
        R = look(D, z, S)
        if len(R) != 1: return D, "und", "several outcomes"
        fs.append(R[0][0]); S = [R[0][1]]
    hs = S[0].ghost.get("atexit", ())
    n0 = len(it.events)
    for h in hs:
        name = h[1] if h[0] == "fn" else None
        if name is None: return D, "und", "exit handler not known"
        S = D.dos(name, [], S)
        if not S: return D, "und" if it.doubt else "bad", it.doubt or f"{name} never returns"
    bad = [e for e in it.events[n0:]]
    if bad:
        e = bad[0]
        return D, "bad", "at process exit: " + (str(e[3]) if isinstance(e, tuple) and len(e) > 3 else str(e))
    return D, "ok", f"{len(hs)} exit handlers"


OPS = {"mpFp_clear": ["a"], "mpFp_init_fp": ["new", "f"], "mpFp_set": ["c", "a"], "mpFp_add": ["c", "a", "b"], "mpFp_mul": ["c", "a", "b"], "mpFp_swap": ["c", "a"],
       "mpFp_set_ui_fp": ["c", "k", "f"], "mpFp_neg": ["c", "a"]}


def kept(prog, op):
    """an operation on elements leaves their descriptor as it was"""
    n = 2; D = Limbs(prog, n); D.fn(op); it = D.it; st = D.st0; f = D.field; fo = D.fo
    it.samples = ll.samples(n, {"A": "r", "Bv": "r", "Cv": "r"}); RP = sub(P, ONE)
    for nm in ("A", "Bv", "Cv"): it.bounds[nm] = (ZERO, RP)
    ob = {"a": D.elem(st, "a", V("A")), "b": D.elem(st, "b", V("Bv")), "c": D.elem(st, "c", V("Cv")), "f": f, "k": C(3), "new": D.obj(st, "n", 24, kind="alloca")}
    before = dict(st.r(f[1]).cells); pb = st.get(f[1], C(fo["p"] + 8)); words = dict(st.r(pb[1]).cells)
    R = D.dos(op, [ob[x] for x in OPS[op]], [st])
    for s in R:
        o = s.r(f[1])
        if o.freed or s.r(pb[1]).freed: return D, "bad", f"{op} releases the descriptor of the field"
        for k, v in before.items():
            if k in (C(fo["pc"]), C(fo["pc"] + 4), C(fo["pc"] + 8)): continue
            if o.cells.get(k) != v: return D, "bad", f"{op} changes the descriptor of the field"
        for k, v in words.items():
            if s.r(pb[1]).cells.get(k) != v: return D, "bad", f"{op} changes the modulus of the field"
    if it.doubt: return D, "und", it.doubt
    return D, "ok", f"{len(R)} paths"
