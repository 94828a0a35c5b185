from scen import *
import eclayer as el
import ptlayer as pl
from eclayer import *
from p09_ecdsa_sign import snapshot, same, wide, P255, P521, field_ptr_, prime
from p10_ecdsa_verify import pl_value, ACROSS, unknown
from p02_scalar_mult import gpoint, order, NM

BITS = (9, 17, 64, 256, 521)
# (plaintext, curve objects): the plaintext relative to the key, sharing of curve objects
PTXT = ("point", "neutral", "key", "generator", "minus-key")
ENC = "mpECElgamal_init_encrypt"; DEC = "mpECElgamal_init_decrypt"


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("every ciphertext is (k*G, M + k*Q) for one and the same k drawn uniformly below the group order from the random source, known nonzero, drawn anew on every retry")
    rep.rule("decrypting (C, D) with d gives D - d*C; composed with encryption under d*G it gives the plaintext, for symbolic d, k, M, including neutral points and equal but distinct curve objects")
    rep.rule("keys and points of other curves, keys of other moduli: nonzero status, no abort, nothing initialised")
    rep.rule("all inputs keep their value, results refer to a curve object of the inputs")
    fns = {}; we, wd = prog.where(ENC), prog.where(DEC)
    for kind in KINDS:
        for nb in BITS if kind == "ws" or tier == "thorough" else (17, 256):
            for m in PTXT:
                for two in (False, True):
                    obl(rep, f"encrypt:{kind}:order{nb}:{m}:{'two curve objects' if two else 'one curve object'}", we, fns, encrypt, prog, kind, nb, m, two)
                    obl(rep, f"decrypt:{kind}:order{nb}:{m}:{'two curve objects' if two else 'one curve object'}", wd, fns, decrypt, prog, kind, nb, m, two)
            for m in ("point", "key"):
                for h in ("same", "other-key", "other-plaintext", "after-failure"):
                    obl(rep, f"encrypt-again:{kind}:order{nb}:{m}:{h}", we, fns, encrypt, prog, kind, nb, m, False, h)
            for m in ("point", "neutral"):
                for two in (False, True):
                    obl(rep, f"round-trip:{kind}:order{nb}:{m}:{'two curve objects' if two else 'one curve object'}", wd, fns, both, prog, kind, nb, m, two)
        for a in ACROSS:
            for neu in (False, True):
                obl(rep, f"encrypt-refuses:{kind}:curve-differs-{a}{':neutral' if neu else ''}", we, fns, refuse, prog, kind, ENC, a, neu)
                obl(rep, f"decrypt-refuses:{kind}:curve-differs-{a}{':neutral' if neu else ''}", wd, fns, refuse, prog, kind, DEC, a, neu)
        for k in ("field", "other", "long", "short"):
            obl(rep, f"decrypt-refuses:{kind}:key-of-{k}", wd, fns, refuse, prog, kind, DEC, "key-" + k, False)
    rep.cover["functions_interpreted"] = fns
    rep.assume.append("scalar multiplication and group operations as decided by P01, P02; the random source as decided by P16")


def new(D, S, name):
    p = D.obj(S[0], name, kind="malloc"); [s.heap.__setitem__(p[1], S[0].heap[p[1]]) for s in S]
    return p


def scene(prog, kind, nb, m, two):
    n = order(nb); D = eccurve(prog, kind, n, prime(nb)); S = D.S; cv2 = D.cv
    if two: cv2, S = D.mkcurve("cv2", S, bits=C(prime(nb).bit_length()))
    Q, S = gpoint(D, S, "Q", D.nfp); d, df = scalar(D, S, "d")
    M_, S = gpoint(D, S, "M", D.nfp, cv=cv2)
    return D, S, Q, M_, d, df, cv2


def ptvalue(D, S, p, m, qv):
    v = {"point": pl.base("M", D.nfp), "neutral": PT({}), "key": qv, "generator": pl.base("G", D.nfp), "minus-key": negpt(qv)}[m]
    for s in S:
        cv = pl.pt_curve(D.it, p, s)
        if v.zero(): pt_write(D.it, None, p, O, cv, s)
        else: pt_write(D.it, None, p, canon(D.it, v), cv, s); s.rng[("ptn", canon(D.it, v))] = (0, 0, frozenset())
    return v


def secret(D, S, qv, df):
    for s in S: s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {df.n}


def nonce(D, s, k, drawn=0):
    """None if the coefficient is an acceptable nonce, else the complaint"""
    n = pl.zrd(D.it, None, D.zp["n"], s)
    rnds = [a for a in k.n.vars() if a[0] == "rand"]; kv = pl.single(k)
    if not rnds or k.d != ONEP: return "the nonce does not come from the random source"
    if any(isinstance(a[1], int) and a[1] < drawn for a in rnds): return "the nonce of an earlier encryption is used again"
    if kv is None or kv[2] != n:
        a = rnds[0]
        if len(rnds) == 1 and k.n == Poly.var(a) + Poly.const(1) and a[2] == sub(n, C(1)): return None
        return f"the nonce {k!r} is not drawn uniformly below the group order"
    if nonzero(D.it, k, s) is not True: return "a zero nonce is not rejected"
    return None


def objs_of(D, **kw):
    o = dict(kw); o["curve"] = D.cv; return o


def points(D, s, ct):
    co = D.p.offsets("_mpECElgamalCiphertext_t"); out = []
    for f in ("C", "D"):
        p = ("p", ct[1], C(co[f][0])); out.append((p, pt_read(D.it, None, p, s), pt_curve(D.it, p, s)))
    return out


def unchanged(D, s, objs, snap, cvs):
    """points may change representation, not value or curve; the rest stays as it is"""
    rest = {n: p for n, p in objs.items() if not n.startswith("point")}
    w = same(D, s, rest, snap)
    if w: return w
    for n, p in objs.items():
        if not n.startswith("point"): continue
        v, c = snap["v:" + n]
        if s.heap[p[1]].freed: return f"the {n} is released"
        if not eqpt(canon(D.it, pt_read(D.it, None, p, s), s), canon(D.it, v, s)): return f"the value of the {n} changes"
        if pt_curve(D.it, p, s) != c: return f"the {n} refers to another curve object"


def snap_of(D, s, objs):
    sn = snapshot(D, s, objs)
    for n, p in objs.items():
        if n.startswith("point"): sn["v:" + n] = (pt_read(D.it, None, p, s), pt_curve(D.it, p, s))
    return sn


def before(D, S, hist, Q, P):
    c0 = new(D, S, "ciphertext0"); args = [c0, Q, P]
    if hist == "other-key": args[1], S = gpoint(D, S, "Q0", D.nfp)
    if hist == "other-plaintext": args[2], S = gpoint(D, S, "M0", D.nfp)
    if hist == "after-failure":
        cv2, S = other_curve(D, S, D.kind, "n"); args[2], S = gpoint(D, S, "M0", D.nfp, cv=cv2)
    ok = [s for t, s in el.feasible(statuses(D.it, D.do(ENC, args, S))) if t == (hist == "after-failure")]
    if not ok: raise AnalysisBroken("no state after the earlier call")
    return ok[:1] + ok[-1:] if len(ok) > 1 else ok


def encrypt(prog, kind, nb, m, two, hist=None):
    D, S, Q, P, d, df, cv2 = scene(prog, kind, nb, m, two); it = D.it
    qv = pl.base("Q", D.nfp); mv = ptvalue(D, S, P, m, qv); ct = new(D, S, "ciphertext")
    objs = objs_of(D, **{"point (public key)": Q, "point (plaintext)": P, "curve 2": cv2})
    if hist: S = before(D, S, hist, Q, P)
    na, ne = len(it.aborts), len(it.events); out = []
    for s0 in S:
        sn = snap_of(D, s0, objs); sn["drawn"] = s0.cnt.get("rand", 0)
        out += [(v, s, sn) for v, s in D.do(ENC, [ct, Q, P], [s0])]
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed", "leak-reinit"))
    if t: return D, "bad", f"encryption {t}"
    good = 0; und = None
    for t, s, sn in el.feasible(statuses(it, out)):
        w = unchanged(D, s, objs, sn, None)
        if w: return D, "bad", f"while encrypting {w}"
        if t: return D, ("und" if unknown(s) else "bad"), "encryption for a key of the same curve fails"
        good += 1
        (cp, cV, ccv), (dp, dV, dcv) = points(D, s, ct)
        for c in (ccv, dcv):
            if c not in (D.cv, cv2): return D, "bad", "the ciphertext refers to a curve object other than that of its inputs"
        if set(cV.d) - {"G"} or "G" not in cV.d:
            if any(wide(c) for c in cV.d.values()): und = "C not recognised"; continue
            return D, "bad", f"C is {cV!r}, not a multiple of the generator"
        k = cV.d["G"]; w = nonce(D, s, k, sn["drawn"])
        if w:
            if wide(k): und = und or w; continue
            return D, "bad", w
        ref = canon(it, padd(mv, PT({b: fmul(FE(c.n, c.d, D.nfp), k) for b, c in qv.d.items()})), s)
        if not eqpt(canon(it, dV, s), ref): return D, ("und" if any(wide(c) for c in dV.d.values()) else "bad"), f"D is {dV!r}, not plaintext + nonce * key"
    if not good: return D, "bad", "encryption never succeeds"
    return (D, "und", und) if und else (D, "ok", "")


def decrypt(prog, kind, nb, m, two):
    D, S, Q, P, d, df, cv2 = scene(prog, kind, nb, m, two); it = D.it
    co = prog.offsets("_mpECElgamalCiphertext_t"); ct = new(D, S, "ciphertext"); qv = pl.base("Q", D.nfp)
    for s in S:
        s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {df.n}
    # C = Q (any point), D = the chosen plaintext expression relative to d*C
    S2 = []
    cS, dS = ("p", ct[1], C(co["C"][0])), ("p", ct[1], C(co["D"][0]))
    S = D.dos("mpECP_init", [cS, D.cv], S); S = D.dos("mpECP_init", [dS, cv2], S)
    dv = {"point": pl.base("M", D.nfp), "neutral": PT({}), "key": PT({"Q": df}), "generator": pl.base("G", D.nfp), "minus-key": negpt(PT({"Q": df}))}[m]
    for s in S:
        pt_write(it, None, cS, qv, D.cv, s)
        pt_write(it, None, dS, canon(it, dv) if not dv.zero() else O, cv2, s)
        if not dv.zero(): s.rng[("ptn", canon(it, dv))] = (0, 0, frozenset())
    out_p = new(D, S, "plaintext"); na, ne = len(it.aborts), len(it.events); out = []
    for s0 in S:
        sn = snapshot(D, s0, {"key": d, "curve": D.cv}); pv = [x[1:] for x in points(D, s0, ct)]
        out += [(v, s, (sn, pv)) for v, s in D.do(DEC, [out_p, d, ct], [s0])]
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed", "leak-reinit"))
    if t: return D, "bad", f"decryption {t}"
    ref = padd(dv, PT({b: fmul(c, df) for b, c in qv.d.items()}), -1)
    for t, s, (sn, pv) in el.feasible(statuses(it, out)):
        if t: return D, ("und" if unknown(s) else "bad"), "decryption of a ciphertext of the key's curve fails"
        w = same(D, s, {"key": d, "curve": D.cv}, sn)
        if w: return D, "bad", f"while decrypting {w}"
        for (p, V, c), (V0, c0), nm in zip(points(D, s, ct), pv, "CD"):
            if c != c0: return D, "bad", f"decryption makes {nm} of the ciphertext refer to another curve object"
            if not eqpt(canon(it, V, s), canon(it, V0, s)): return D, "bad", f"decryption changes {nm} of the ciphertext"
        c = pt_curve(it, out_p, s)
        if c not in (D.cv, cv2): return D, "bad", "the plaintext refers to a curve object other than those of the ciphertext"
        V = canon(it, pt_read(it, None, out_p, s), s)
        if not eqpt(V, canon(it, ref, s)): return D, ("und" if any(wide(x) for x in V.d.values()) else "bad"), f"decryption gives {V!r}, not D - d * C"
    if not out: return D, "bad", "decryption never returns"
    return D, "ok", ""


def both(prog, kind, nb, m, two):
    D, S, Q, P, d, df, cv2 = scene(prog, kind, nb, m, two); it = D.it
    qv = PT({"G": df}); ct = new(D, S, "ciphertext"); o = new(D, S, "decrypted")
    for s in S:
        s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {df.n}; pl_value(D, Q, qv, s)
    mv = ptvalue(D, S, P, m, qv)
    na, ne = len(it.aborts), len(it.events)
    R = [s for t, s in statuses(it, D.do(ENC, [ct, Q, P], S)) if not t]
    R = list(statuses(it, D.do(DEC, [o, d, ct], R)))
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed", "leak-reinit"))
    if t: return D, "bad", f"decrypting an encryption {t}"
    if not R: return D, "bad", "decrypting an encryption never returns"
    und = None
    for t, s in R:
        if t:
            if unknown(s): und = "status not known"; continue
            return D, "bad", "decryption of a fresh ciphertext fails"
        V = canon(it, pt_read(it, None, o, s), s)
        if not eqpt(V, canon(it, mv, s)):
            if any(wide(x) for x in V.d.values()): und = "result not recognised"; continue
            return D, "bad", f"decrypting an encryption gives {V!r} for the plaintext {mv!r}"
    return (D, "und", und) if und else (D, "ok", "")


def other_curve(D, S, kind, par):
    over = {}; k2 = None; n = D.S[0].heap[D.zp["n"][1]].cells[("z", ZERO)][1][1]
    if par == "type": k2 = {"ws": "te", "te": "ed", "ed": "te", "mo": "ws"}[kind]
    else:
        val = {"p": (1 << 255) - 31, "n": n + 2}.get(par); z = D.mpz(S[0], "other", C(val) if val else None)
        [s.heap.__setitem__(z[1], S[0].heap[z[1]]) for s in S]
        if val is None:
            nm = {"1": SETTER[kind][1], "2": SETTER[kind][2]}.get(par, par); b = ("s", "other", 0, "other")
            for s in S:
                s.assume0("ne", sub(D.zatom(nm), b))
                if par in ("1", "2"): s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {fadd(red(D.zatom(nm), D.fp), red(b, D.fp), -1).n}
        over = {"_" + par: z}
    return D.mkcurve("cvq", S, kind=k2, bits=C(255), **over)


def refuse(prog, kind, fn, b, neu):
    n = order(17); D = eccurve(prog, kind, n, P255); it = D.it; S = D.S; cv2 = D.cv
    fp = D.nfp
    if b.startswith("key-"): fp = field_ptr_({"key-field": P255, "key-other": n + 2, "key-long": P521, "key-short": 13}[b])
    else: cv2, S = other_curve(D, S, kind, b)
    Q, S = gpoint(D, S, "Q", D.nfp)
    P, S = (D.point("M", S, neutral=True, cv=cv2) if neu else gpoint(D, S, "M", D.nfp, cv=cv2))
    d, df = scalar(D, S, "d", fp); ct = new(D, S, "ciphertext"); o = new(D, S, "result")
    if fn == DEC:
        co = prog.offsets("_mpECElgamalCiphertext_t")
        for f, p, c in (("C", Q, D.cv), ("D", P, cv2)):
            a = ("p", ct[1], C(co[f][0])); S = D.dos("mpECP_init", [a, c], S)
            for s in S: pt_write(it, None, a, pt_read(it, None, p, s), c, s)
        args = [o, d, ct]; res = o
    else: args = [ct, Q, P]; res = ct
    na, ne = len(it.aborts), len(it.events); out = D.do(fn, args, S)
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"{fn} with operands of different curves or a wrong key {t}"
    if not out: return D, "bad", f"{fn} never returns"
    for t, s in el.feasible(statuses(it, out)):
        if not t: return D, ("und" if unknown(s) else "bad"), f"{fn} reports success for operands of different curves or a key of another modulus"
        if fn == ENC or res == o:
            live = [k for k, x in s.heap[res[1]].res.items() if x == "live"]
            if live: return D, "bad", f"{fn} fails and leaves an initialised result behind"
    return D, "ok", ""
