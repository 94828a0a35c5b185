from scen import *
import eclayer as el
import ptlayer as pl
from eclayer import *
from p09_ecdsa_sign import mkscheme, message, ref_digest, snapshot, same, wide, prime, SHAPES, P255, field_ptr_
from p02_scalar_mult import gpoint, order, NM

BAD = ("null-sig", "null-msg", "empty-msg", "neutral-key", "r-zero", "s-zero", "rs-zero", "r-of-field", "s-of-field", "r-other-order", "s-other-order", "r-long-field", "s-short-field")
VAR = ("plain", "key-is-generator", "key-on-equal-curve", "key-multiple")
ACROSS = ("p", "1", "2", "n", "h", "Gx", "Gy", "type")
FN = "mpECDSASignature_verify_cmp"


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("on every path that reports zero: r and s are known nonzero, the point V = (digest/s)*G + (r/s)*Q is known not to be neutral and the residue of its x coordinate is known to equal r")
    rep.rule("every path that reports nonzero knows one of these to be false")
    rep.rule("a signature satisfying the signing equation is accepted whenever its nonce point is not neutral")
    rep.rule("malformed arguments (no message, neutral key, key of another curve, components of another modulus or zero) give a nonzero status without abort")
    rep.rule("key, signature, scheme, curve and message are unchanged; the digest buffer holds the digest")
    fns = {}; w = prog.where(FN)
    for kind in KINDS:
        for nb, hsz in SHAPES:
            if kind != "ws" and nb in (9, 24, 25, 64, 521, 112) and tier != "thorough": continue
            for v in VAR:
                if v != "plain" and (nb, hsz) not in ((17, 3), (16, 2), (256, 32), (256, 64)): continue
                obl(rep, f"verify:{kind}:order{nb}:digest{hsz}:{v}", w, fns, verify, prog, kind, nb, hsz, v)
            obl(rep, f"own-signature:{kind}:order{nb}:digest{hsz}", w, fns, own, prog, kind, nb, hsz)
        for b in BAD: obl(rep, f"refuses:{kind}:{b}", w, fns, refuse, prog, kind, b)
        for b in ACROSS: obl(rep, f"refuses:{kind}:key-curve-differs-{b}", w, fns, refuse, prog, kind, "cv-" + b)
    rep.cover["functions_interpreted"] = fns
    rep.assume.append("scalar multiplication, field and group operations as decided by P01, P02, P13, P14")


def mksig(D, S, sch, r=None, s=None, rfp=None, sfp=None):
    """a signature object holding the given components"""
    so = D.p.offsets("_mpECDSASignature_t")
    sig = D.obj(S[0], "sig", kind="malloc"); r_ = s_ = None
    rp, r_ = scalar(D, S, "r", rfp, r); sp, s_ = scalar(D, S, "s", sfp, s)
    for st in S:
        o = st.heap[sig[1]] = S[0].heap[sig[1]]; o = st.w(sig[1])
        for f, v in (("r", r_), ("s", s_)):
            b = so[f][0]; o.cells[("fe", C(b))] = (16, v); o.cells[C(b + 16)] = (8, v.fp); o.res[("fe", C(b))] = "live"
        st.put(sig[1], C(so["sscheme"][0]), 8, sch)
    return sig, r_, s_


def equal_curve(D, S, kind=None, **over):
    n = D.p.offsets("_mpECurve_t")
    return D.mkcurve("cv'" , S, kind=kind, bits=C(P255.bit_length()), **over)


def check_outcomes(D, out, sig_r, sig_s, e, Q, what, must=None):
    """accepting paths imply the equation, rejecting paths imply that it fails"""
    it = D.it; und = None; acc = rej = 0
    V = padd(PT({"G": fmul(e, finv(sig_s))}), PT({k: fmul(c, fmul(sig_r, finv(sig_s))) for k, c in Q.d.items()}))
    V0 = V; cvt = pl.curve_type(it, D.cv, D.S[0])
    for t, s, w in el.feasible(statuses(it, out)):
        if w: return "bad", f"while verifying {w}"
        hs = [x for x in s.ghost.get("log", ()) if x[0] == "hash"]
        V = canon(it, V0, s)
        vn = V.zero() or any(z is True for z in [known_neutral(it, V, s)]); vf = known_neutral(it, V, s) is False
        rz, sz = nonzero(it, sig_r, s), nonzero(it, sig_s, s)
        df = fsub(red(("ecx", canonx(it, V, cvt, s)), D.nfp), sig_r) if not V.zero() else None
        dz = nonzero(it, df, s) if df is not None else None
        if not t:
            acc += 1
            why = None
            if not hs or any(x[1:] != what[0] for x in hs): return "bad", "the digest is not that of exactly the message given"
            if rz is not True: why = "r is not known to be nonzero"
            elif sz is not True: why = "s is not known to be nonzero"
            elif not vf: why = "(digest/s)*G + (r/s)*Q may be the neutral element"
            elif dz is not False: why = "r is not known to equal the x coordinate of (digest/s)*G + (r/s)*Q"
            if why:
                if unknown(s): und = und or why + " (path with values the analysis does not know)"; continue
                return "bad", f"a signature is accepted although {why}"
        else:
            rej += 1
            if rz is False or sz is False or vn or dz is True: continue
            if unknown(s): und = und or "rejection for a reason the analysis does not recognise"; continue
            return "bad", "a signature is rejected although nothing is wrong with it on that path"
    if must and not acc and not und: return "bad", "no signature is ever accepted"
    return ("und", und) if und else ("ok", "")


def known_neutral(it, V, st):
    r = is_neutral(it, V, st.copy())
    return r[0][0] if len(r) == 1 else None


def finv(f): return FE(f.d, f.n, f.fp)


def fsub(a, b): return fadd(a, FE(b.n.scale(-1), b.d, b.fp))


def unknown(s):
    """the path decided something about a value made up by the analysis"""
    if any(wide(p) for g in ("zr", "nz") for p in s.ghost.get(g, ())): return True
    return any(isinstance(t, tuple) and wide(t) for t in s.rng if not (isinstance(t, tuple) and t and t[0] == "ptn")) or \
        any(t[0] == "ptn" and wide(t[1]) for t in s.rng if isinstance(t, tuple) and t)


def verify(prog, kind, nb, hsz, var):
    n = order(nb); D = eccurve(prog, kind, n, prime(nb)); it = D.it; S = D.S
    sch, H, S = mkscheme(D, S, hsz); cv2 = D.cv
    if var == "key-on-equal-curve":
        cv2, S = D.mkcurve("cv2", S, bits=C(prime(nb).bit_length()))
    if var == "key-is-generator":
        Q, S = D.point("pub", S, neutral="blank"); S = D.dos("mpECP_set_mpz", [Q, D.zp["Gx"], D.zp["Gy"], cv2], S)
    else: Q, S = gpoint(D, S, "Q", D.nfp, cv=cv2)
    qv = pl.base("G" if var == "key-is-generator" else "Q", D.nfp)
    if var == "key-multiple":      # Q = d*G
        d, df = scalar(D, S, "d"); qv = PT({"G": df})
        for s in S: s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {df.n}; pl_value(D, Q, qv, s)
    msg, L = message(D, S); sig, r, sg = mksig(D, S, sch)
    objs = {"signature": sig, "scheme": sch, "key": Q, "message": msg, "curve": D.cv, "curve of the key": cv2, "hash function": H}
    na, ne = len(it.aborts), len(it.events); out = []
    for s0 in S:
        snap = snapshot(D, s0, objs)
        out += [(v, s, same(D, s, objs, snap)) for v, s in D.do(FN, [sig, Q, msg, L], [s0])]
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"verification {t}"
    e = red(ref_digest(msg, L, (nb + 7) // 8, hsz), D.nfp)
    return (D,) + check_outcomes(D, out, r, sg, e, qv, ((msg, L),), True)


def own(prog, kind, nb, hsz):
    """a signature with s*k = digest + r*d, r = x(k*G) is accepted under the key d*G"""
    n = order(nb); D = eccurve(prog, kind, n, prime(nb)); it = D.it; S = D.S
    sch, H, S = mkscheme(D, S, hsz); msg, L = message(D, S)
    Q, S = gpoint(D, S, "Q", D.nfp); d, df = scalar(D, S, "d"); k, kf = scalar(D, S, "k")
    e = red(ref_digest(msg, L, (nb + 7) // 8, hsz), D.nfp)
    V = canonx(it, canon(it, PT({"G": kf})), pl.curve_type(it, D.cv, S[0]))
    r = red(("ecx", V), D.nfp); sg = fmul(fadd(e, fmul(r, df)), finv(kf))
    sig, r, sg = mksig(D, S, sch, r, sg)
    for s in S:
        s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {r.n, sg.n, kf.n, df.n}
        pl_value(D, Q, PT({"G": df}), s)
    na, ne = len(it.aborts), len(it.events)
    out = D.do(FN, [sig, Q, msg, L], S)
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"verification {t}"
    und = None
    for t, s in el.feasible(statuses(it, out)):
        if not t: continue
        if unknown(s): und = "status not known"; continue
        return D, "bad", f"a signature made with the matching key is rejected (order of {nb} bits, digest of {hsz} bytes)"
    if not out: return D, "bad", "verification never returns"
    return (D, "und", und) if und else (D, "ok", "")


def pl_value(D, p, V, s):
    pt_write(D.it, None, p, canon(D.it, V), D.cv, s); s.rng[("ptn", canon(D.it, V))] = (0, 0, frozenset())


def refuse(prog, kind, b):
    n = order(17); D = eccurve(prog, kind, n, P255); it = D.it; S = D.S
    sch, H, S = mkscheme(D, S, 3); msg, L = message(D, S); cvq = D.cv
    if b.startswith("cv-"):
        par = b[3:]; over = {}; k2 = None
        if par == "type": k2 = {"ws": "te", "te": "ed", "ed": "te", "mo": "ws"}[kind]
        else:
            val = {"p": (1 << 255) - 31, "n": n + 2}.get(par)
            z = D.mpz(S[0], "other", C(val) if val else None)
            [s.heap.__setitem__(z[1], S[0].heap[z[1]]) for s in S]
            if val is None:
                for s in S:
                    nm = {"1": SETTER[kind][1], "2": SETTER[kind][2]}.get(par, par); s.assume0("ne", sub(D.zatom(nm), ("s", "other", 0, "other")))
                    a = [red(D.zatom(nm), D.fp), red(("s", "other", 0, "other"), D.fp)]
                    if par in ("1", "2"): s.ghost["nz"] = s.ghost.get("nz", frozenset()) | {fsub(*a).n}
            over = {"_" + par: z}
        cvq, S = D.mkcurve("cvq", S, kind=k2, bits=C(255), **over)
    if b == "neutral-key": Q, S = D.point("Q", S, neutral=True)
    else: Q, S = gpoint(D, S, "Q", D.nfp, cv=cvq)
    kw = {}
    Z = FE(Poly(), ONEP, D.nfp)
    if b in ("r-zero", "rs-zero"): kw["r"] = Z
    if b in ("s-zero", "rs-zero"): kw["s"] = Z
    ofp = field_ptr_({"field": P255, "order": n + 2, "-long": P255}.get(b[-5:], 13))
    if b.startswith("r-") and b != "r-zero": kw["rfp"] = field_ptr_({"r-of-field": P255, "r-other-order": n + 2, "r-long-field": (1 << 521) - 1}[b])
    if b.startswith("s-") and b != "s-zero": kw["sfp"] = field_ptr_({"s-of-field": P255, "s-other-order": n + 2, "s-short-field": 13}[b])
    sig, r, sg = mksig(D, S, sch, **kw)
    args = [ZERO if b == "null-sig" else sig, Q, ZERO if b == "null-msg" else msg, ZERO if b == "empty-msg" else L]
    na, ne = len(it.aborts), len(it.events)
    out = D.do(FN, args, S)
    t = trouble(D, na, ne, kinds=EVENTS + ("pt-mixed",))
    if t: return D, "bad", f"verification with {b} {t}"
    if not out: return D, "bad", f"verification with {b} never returns"
    for t, s in el.feasible(statuses(it, out)):
        if not t: return D, ("und" if unknown(s) else "bad"), f"verification with {b} reports success"
    return D, "ok", ""
