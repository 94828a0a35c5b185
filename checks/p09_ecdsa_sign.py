from scen import *
import eclayer as el
import ptlayer as pl
from eclayer import eccurve, scalar, nonzero, eqfe, hashmodel
from p02_scalar_mult import gpoint, order, NM

PR = {2: 13, 3: 251, 4: (1 << 31) - 1, 32: (1 << 255) - 19, 66: (1 << 521) - 1}
# (bits of the group order, bytes of the digest): shorter, equal, longer; order not a multiple of eight bits
SHAPES = ((9, 2), (16, 2), (17, 2), (17, 3), (17, 4), (24, 3), (24, 1), (25, 3), (64, 8), (256, 32), (256, 20), (256, 64), (521, 64), (521, 66), (112, 32))
# what happened before the signature that is judged
HIST = ("same", "other-message", "other-key", "after-verify", "after-failure")
BAD = ("null-msg", "empty-msg", "null-scheme", "key-of-field", "key-of-other-order")


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("on every path that reports success: r is the residue of the x coordinate of nonce*G, s*nonce = digest + r*key as polynomial identity in nonce, key and digest bytes, r and s known nonzero")
    rep.rule("the nonce comes from the random source with the group order as bound, is known nonzero, and paths that retry (three rounds interpreted one by one, the rest by widening) draw another one")
    rep.rule("the digest is that of exactly the message given, in a buffer that holds it, and its leading bytes (as many as the order has) are used in big-endian order")
    rep.rule("wrong keys and empty messages give a nonzero status, without abort; key, message, scheme and curve are unchanged")
    fns = {}
    for kind in KINDS:
        for nb, hsz in SHAPES:
            if kind != "ws" and nb in (9, 24, 25, 64, 521, 112) and tier != "thorough": continue
            obl(rep, f"sign:{kind}:order{nb}:digest{hsz}", prog.where("mpECDSASignature_init_Sign"), fns, sign, prog, kind, nb, hsz)
        for h in HIST:
            obl(rep, f"sign-again:{kind}:{h}", prog.where("mpECDSASignature_init_Sign"), fns, sign, prog, kind, 17, 3, h)
        for b in BAD:
            obl(rep, f"sign-refuses:{kind}:{b}", prog.where("mpECDSASignature_init_Sign"), fns, refuse, prog, kind, b)
    rep.cover["functions_interpreted"] = fns
    rep.assume.append("scalar multiplication, field and group operations as decided by P01, P02, P13, P14; the random source as decided by P16")


def prime(nb): return P521 if nb > 260 else P255


P255 = (1 << 255) - 19
P521 = (1 << 521) - 1


def mkscheme(D, S, hsz, cv=None, name="sch"):
    prog = D.p; it = D.it
    ho = prog.offsets("_mpECDSAHashfunc_t")
    H = D.obj(S[0], "H." + name, kind="malloc"); sch = D.obj(S[0], name, kind="malloc")
    for s in S:
        s.heap[H[1]] = S[0].heap[H[1]]; s.heap[sch[1]] = S[0].heap[sch[1]]
        s.put(H[1], C(ho["dohash"][0]), 8, ("fn", "the digest function")); s.put(H[1], C(ho["hsz"][0]), 8, C(hsz))
    it.models["the digest function"] = hashmodel(hsz)
    R = D.do("mpECDSASignatureScheme_init", [sch, cv or D.cv, H], S)
    return sch, H, [s for v, s in R if v == ZERO]


def message(D, S, n="msglen"):
    m = D.obj(S[0], "msg", kind="input"); L = ("u", 64, "msglen")
    for s in S:
        s.heap[m[1]] = S[0].heap[m[1]]; s.assume0("ne", L)
    return m, L


def ref_digest(msg, L, nsz, hsz):
    k = min(nsz, hsz); t = ZERO
    for i in range(k): t = add(t, mulc(("u", 8, ("hash", msg, L, i)), 256 ** (k - 1 - i)))
    return t


def snapshot(D, s, objs): return {n: dict(s.heap[p[1]].cells) for n, p in objs.items()}


def same(D, s, objs, snap):
    for n, p in objs.items():
        if s.heap[p[1]].freed: return f"the {n} is released"
        for k, v in snap[n].items():
            w = s.heap[p[1]].cells.get(k)
            if w is None or w[1] != v[1]: return f"the {n} is changed"
        if n == "message" and len(s.heap[p[1]].cells) > len(snap[n]): return "the message is written to"
    return None


def before(D, S, hist, sch, d, msg, L):
    """earlier calls on the same scheme"""
    prog = D.p; fn = "mpECDSASignature_init_Sign"
    sig = D.obj(S[0], "sig0", kind="malloc"); [s.heap.__setitem__(sig[1], S[0].heap[sig[1]]) for s in S]
    args = [sig, sch, d, msg, L]
    if hist == "other-message":
        m2 = D.obj(S[0], "msg0", kind="input"); [s.heap.__setitem__(m2[1], S[0].heap[m2[1]]) for s in S]; args[3] = m2
    if hist == "other-key": args[2] = scalar(D, S, "d0")[0]
    if hist == "after-failure": args[4] = ZERO
    ok = [s for t, s in el.feasible(statuses(D.it, D.do(fn, args, S))) if t == (hist == "after-failure")]
    if hist == "after-verify":
        Q, ok = gpoint(D, ok, "Q", D.nfp)
        ok = [s for v, s in D.do("mpECDSASignature_verify_cmp", [sig, Q, msg, L], ok)]
    for s in ok: s.ghost["log"] = ()
    if not ok: raise AnalysisBroken("no state after the earlier calls")
    # one path without retries and one with
    return ok[:1] + ok[-1:] if len(ok) > 1 else ok


def sign(prog, kind, nb, hsz, hist=None):
    n = order(nb); D = eccurve(prog, kind, n, prime(nb)); it = D.it
    sch, H, S = mkscheme(D, D.S, hsz); d, df = scalar(D, S, "d"); msg, L = message(D, S)
    sig = D.obj(S[0], "sig", kind="malloc"); [s.heap.__setitem__(sig[1], S[0].heap[sig[1]]) for s in S]
    so = prog.offsets("_mpECDSASignature_t"); objs = {"scheme": sch, "key": d, "message": msg, "curve": D.cv, "hash function": H}
    if hist: S = before(D, S, hist, sch, d, msg, L)
    na, ne = len(it.aborts), len(it.events); out = []
    for s0 in S:
        snap = snapshot(D, s0, objs); snap["drawn"] = s0.cnt.get("rand", 0)
        out += [(v, s, snap) for v, s in D.do("mpECDSASignature_init_Sign", [sig, sch, d, msg, L], [s0])]
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed", "leak-reinit"))
    if t: return D, "bad", f"signing {t}"
    nsz = (nb + 7) // 8; e = red(ref_digest(msg, L, nsz, hsz), D.nfp); good = 0; und = None
    for t, s, snap in el.feasible(statuses(it, out)):
        w = same(D, s, objs, snap)
        if w: return D, "bad", f"while signing {w}"
        if t: return D, "bad", "signing a non-empty message with a key of the group order fails"
        good += 1
        hs = [x for x in s.ghost.get("log", ()) if x[0] == "hash"]
        if not hs or any(x[1:] != (msg, L) for x in hs): return D, "bad", "the digest is not that of exactly the message given"
        r, sg = (s.heap[sig[1]].cells.get(("fe", C(so[f][0]))) for f in "rs")
        if r is None or sg is None: return D, "bad", "a signature component is never stored"
        r, sg = r[1], sg[1]
        if s.get(sig[1], C(so["sscheme"][0])) != sch: return D, "bad", "the signature does not refer to its scheme"
        if r.fp != D.nfp or sg.fp != D.nfp: return D, "bad", "a signature component is not a residue of the group order"
        x = pl.single(r)
        if not x or x[0] != "red" or x[1][0] != "ecx":
            und = und or "r not recognised as the x coordinate of a point"
            if clean_term(r) and not wide(r): return D, "bad", f"r is {r!r}, not the residue of an x coordinate"
            continue
        V = x[1][1]
        if set(V.d) != {"G"}: return D, "bad", f"r comes from a point that is not a multiple of the generator"
        k = V.d["G"]; kv = pl.single(k)
        rnds = [a for a in k.n.vars() if a[0] == "rand"]
        if not rnds or k.d != ONEP:
            if clean_term(k): return D, "bad", "the nonce does not come from the random source"
            und = und or "nonce not recognised"; continue
        if any(isinstance(a[1], int) and a[1] < snap["drawn"] for a in rnds): return D, "bad", "the nonce of an earlier signature is used again"
        if kv is None or kv[2] != C(n):
            a = rnds[0]
            ok = len(rnds) == 1 and k.n == Poly.var(a) + Poly.const(1) and a[2] == C(n - 1)
            if not ok: return D, "bad", f"the nonce {k!r} is not drawn uniformly below the group order"
        elif nonzero(it, k, s) is not True: return D, "bad", "a zero nonce is not rejected"
        lhs = fmul(sg, k); rhs = fadd(e, fmul(r, df))
        if not eqfe(lhs, rhs):
            if wide(sg): und = und or "s contains a value the analysis does not know"; continue
            return D, "bad", f"s * nonce is not digest + r * key (order of {nb} bits, digest of {hsz} bytes)" + round_of(rnds)
        for nm, f in (("r", r), ("s", sg)):
            if nonzero(it, f, s) is not True: return D, "bad", f"a signature with {nm} = 0 is not rejected"
    if not good: return D, "bad", "signing never succeeds"
    return (D, "und", und) if und else (D, "ok", "")


def wide(f):
    """contains a value made up by widening or an unmodelled function"""
    def w(t):
        if isinstance(t, FE): return w(t.n) or w(t.d)
        if isinstance(t, Poly): return any(w(v) for v in t.vars())
        if isinstance(t, pl.PT): return any(w(c) for c in t.d.values())
        if not isinstance(t, tuple) or not t: return False
        if t[0] == "s" and isinstance(t[1], tuple) and t[1]: return True
        if t[0] in ("fpow", "zshr", "udiv", "powm", "zinv", "import", "op", "undef"): return True
        return any(w(x) for x in t[1:] if isinstance(x, (tuple, FE, Poly, pl.PT)))
    return w(f)


def round_of(r):
    i = r[0][1]
    return "" if i == 0 else f" in a signature made after {i} retr{'y' if i == 1 else 'ies'}"


def refuse(prog, kind, b):
    n = order(17); D = eccurve(prog, kind, n, P255); it = D.it
    sch, H, S = mkscheme(D, D.S, 3); msg, L = message(D, S)
    fp = D.fp if b == "key-of-field" else field_ptr_(n + 2) if b == "key-of-other-order" else D.nfp
    d, df = scalar(D, S, "d", fp)
    sig = D.obj(S[0], "sig", kind="malloc"); [s.heap.__setitem__(sig[1], S[0].heap[sig[1]]) for s in S]
    args = [sig, ZERO if b == "null-scheme" else sch, d, ZERO if b == "null-msg" else msg, ZERO if b == "empty-msg" else L]
    na, ne = len(it.aborts), len(it.events)
    out = D.do("mpECDSASignature_init_Sign", args, S)
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"signing with {b} {t}"
    if not out: return D, "bad", f"signing with {b} never returns"
    for t, s in el.feasible(statuses(it, out)):
        if not t: return D, "bad", f"signing with {b} reports success"
        live = [k for k, x in s.heap[sig[1]].res.items() if x == "live"]
        if live: return D, "bad", f"signing with {b} fails and leaves an initialised signature behind"
    return D, "ok", ""


def field_ptr_(n): return ("p", ("F", C(n)), ZERO)
