from fractions import Fraction
from scen import *
import limblayer as ll
from limblayer import Limbs, V, P, B, know, entails, witness, redp, feasible, NoValue, show, L, zget, zput, cn, split
from p13_field_arithmetic import setup, judge, target, RP, same
import models

U = V("u")


def run(rep, tier, sizes=None):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("mpFp_inv: status 0 exactly for nonzero elements, the result is then the canonical inverse; the operand keeps its value; result and operand may be the same object")
    rep.rule("mpFp_sqrt, in the multiplicative group written as (cyclic of order 2^s) x (cyclic of odd order q), p - 1 = 2^s q with q symbolic: for every residue class of q, every even exponent "
             "of the operand and every non-residue, the result r satisfies r^2 = operand, exactly and in canonical form, and the search terminates; zero gives zero; non-residues give a nonzero status")
    fns = {}; quick = tier != "thorough"
    for n in sizes or ((1, 2, 3, 16) if quick else (1, 2, 3, 4, 6, 8, 9, 16)):
        for al in ("apart", "c=a"):
            for pr in (("new", "short", "other-field") if al == "apart" else ("-",)):
                if pr == "short" and n == 1: continue
                obl(rep, f"mpFp_inv:{n}w:{al}:{pr}", prog.where("mpFp_inv"), fns, invert, prog, n, al, pr, False)
                obl(rep, f"mpFp_inv:{n}w:{al}:{pr}:zero", prog.where("mpFp_inv"), fns, invert, prog, n, al, pr, True)
    for n in () if sizes else ((1, 2) if quick else (1, 2, 3, 9)):
        for al in ("apart", "r=a"):
            for case in ("zero", "non-residue"): obl(rep, f"mpFp_sqrt:{n}w:{al}:{case}", prog.where("mpFp_sqrt"), fns, root, prog, n, al, 3, [5], [2 if case == "zero" else 3], case)
            for s, rhos, es in spaces(quick, n):
                for i, part in enumerate(chunks(es, 8 if s < 16 else 1)):
                    obl(rep, f"mpFp_sqrt:{n}w:{al}:2^{s}:{len(rhos)}x{len(es)}:{i}", prog.where("mpFp_sqrt"), fns, root, prog, n, al, s, rhos, part, "residue")
        obl(rep, f"mpFp_sqrt:{n}w:new-object", prog.where("mpFp_sqrt"), fns, root, prog, n, "new", 2, [1, 3], [0, 2], "residue")
    rep.cover["functions_interpreted"] = fns


def chunks(l, k): return [l[i:i + k] for i in range(0, len(l), k)]


def spaces(quick, n):
    """(s, residues of q mod 2^(s+2), even exponents of the operand)"""
    out = []
    for s in ((1, 2, 3, 4) if quick and n < 3 else (1, 2) if quick else (1, 2, 3, 4, 5, 6)):
        out.append((s, list(range(1, 1 << (s + 2), 2))[:: 1 if s < 3 else 3 if s < 5 else 11], list(range(0, 1 << s, 2))))
    if n >= 2:
        for s in ((33,) if quick and n < 4 else (96,) if quick else (31, 32, 33) if n < 4 else (63, 64, 65, 96)):
            N = 1 << s
            out.append((s, [1, (1 << (s + 2)) - 1], [0, N // 2, 2 * (N // 3)]))
    return out


# ---------------------------------------------------------------- the group domain
class Group:
    """F_p^* for p = 2^s q + 1, q = 2^K u + rho: an element is ("g", e mod 2^s, {symbol: exponent modulo q}); exponents modulo q are kept
    in Z[1/2], where 2^K u = -rho, so that two exponents that agree there agree for every u"""

    def __init__(self, D, s, rho):
        self.D = D; it = D.it; self.it = it; self.s = s; self.K = s + 2; self.rho = rho; self.vague = False
        it.group = self.group; it.gpow = self.gpow; it.bit = self.bit; it.inverse = self.inverse
        self.ez = 1
        st = D.st0; q = add(mulc(U, 1 << self.K), C(rho)); d = sub(P, add(mulc(q, 1 << s), ONE)); self.q = q
        it.bounds["u"] = (ONE, None); lo = (1 << s) * ((1 << self.K) + rho) + 1
        it.bounds["p"] = (C(max(lo, B ** (D.n - 1))), C(B ** D.n - 1))
        know(st, d, mulc(d, -1))

    def g(self, e, f):
        e %= 1 << self.s; f = {k: v for k, v in f.items() if v != 0}
        if e == 0 and not f: return ONE
        return ("g", e, tuple(sorted(f.items())))

    def parts(self, st, t):
        """(e, f) of an element, or None"""
        if t[0] == "g": return t[1], dict(t[2])
        if t[0] == "c":
            v = t[1]
            if v == 1: return 0, {}
            if v == -1: return 1 << (self.s - 1), {}
            if v in (2, 3, 5, 7): return (self.ez if self.nonres(v) else 2 * (v + 1)), {f"z{v}": Fraction(1)}
            if v == 4: e, f = self.parts(st, C(2)); return 2 * e, {k: 2 * x for k, x in f.items()}
            return None
        if t[0] == "lin":
            if redp(t) == C(-1): return 1 << (self.s - 1), {}
            c, d = lin_parts(redp(t))
            if c == 0 and len(d) == 1:
                (a, k), = d.items()
                r = self.parts(st, a) if a[0] != "lin" else None
                if r is None: return None
                if k == 1: return r
                if k == -1: return r[0] + (1 << (self.s - 1)), r[1]
            return None
        if t[0] == "prod":
            e, f = 0, {}
            for x in t[1]:
                r = self.parts(st, x)
                if r is None: return None
                e += r[0]
                for k, v in r[1].items(): f[k] = f.get(k, 0) + v
            return e, f
        return None

    def nonres(self, v): return v == self.zval

    def group(self, t):
        if t[0] == "c" and 0 <= t[1] < 8: return None
        r = self.parts(None, t)
        return self.g(*r) if r is not None else None

    def poly(self, t):
        """(coefficient of u, constant) of an integer"""
        c, d = lin_parts(t); cu = 0
        for a, k in d.items():
            if a == U: cu += k
            elif a == P: cu += k << (self.s + self.K); c += k * ((self.rho << self.s) + 1)
            else: return None
        return cu, c

    def gpow(self, st, x, e):
        r = self.parts(st, x); p = self.poly(e)
        if r is None or p is None: return None
        cu, c = p
        if r[0] * cu % (1 << self.s): return None
        m = Fraction(-cu * self.rho, 1 << self.K) + c
        return self.g(r[0] * c, {k: v * m for k, v in r[1].items()})

    def inverse(self, x):
        r = self.parts(None, x)
        return self.g(-r[0], {k: -v for k, v in r[1].items()}) if r is not None else ("inv", x)

    def bit(self, st, x, b):
        p = self.poly(x)
        if p is None or b[0] != "c" or p[0] % (2 << b[1]) or not entails(self.it, st, x): return None
        return C(p[1] >> b[1] & 1)

    def same(self, x, y):
        """are two elements equal? None when the representation does not tell"""
        a, b = self.parts(None, x), self.parts(None, y)
        if a is None or b is None: return None
        if (a[0] - b[0]) % (1 << self.s): return False
        ks = set(a[1]) | set(b[1])
        if all(a[1].get(k, 0) == b[1].get(k, 0) for k in ks): return True
        self.vague = True       # different for some p of this family, equal for others
        return False


def m_cmp(base):
    def f(it, I, a, st):
        G = getattr(it, "G", None); x = zget(it, I, st, a[0])
        y = zget(it, I, st, a[1]) if base == "__gmpz_cmp" else ll.u64(num(a[1]))
        if G is not None and (x[0] == "g" or y[0] == "g") and x != y:
            e = G.same(x, y)
            if e is True: return [(ZERO, st)]
            if e is False and ONE in (x, y): return C(1 if y == ONE else -1)      # every other element exceeds 1
            if e is False:
                d = sub(x, y)
                return [(C(1 if i else -1), s) for i, s in split(it, st, [sub(C(-1), d)], [sub(d, ONE)])]
        return L0[base](it, I, a, st)
    return f


L0 = {k: L[k] for k in ("__gmpz_cmp", "__gmpz_cmp_ui")}


def m_jacobi(it, I, a, st):
    G = it.G; x = zget(it, I, st, a[0])
    if zget(it, I, st, a[1]) != P: raise AnalysisBroken("Legendre symbol modulo another number")
    ll.needs_normal(it, I, st, a[0], "mpz_legendre")
    if x == ZERO: return ZERO
    if x[0] not in ("c", "g"):
        if entails(it, st, mulc(x, -1)) and entails(it, st, x): return ZERO
    r = G.parts(st, x)
    if r is None: raise AnalysisBroken("Legendre symbol of an unknown number")
    return C(-1 if r[0] % 2 else 1)


def m_divq(it, I, a, st):
    n = I.x["callee"][1]; G = it.G; x = zget(it, I, st, a[1])
    d = cn(a[2], "divisor") if not n.endswith("2exp") else 1 << cn(a[2], "divisor")
    p = G.poly(x)
    if p is None or p[0] % d or not entails(it, st, x): raise AnalysisBroken("quotient of an unknown number")
    zput(it, I, st, a[0], add(mulc(U, p[0] // d), C(p[1] // d)))
    return C(p[1] % d)


def m_scan1(it, I, a, st):
    G = it.G; p = G.poly(zget(it, I, st, a[0])); b = cn(a[1])
    if p is None or p[1] == 0: raise AnalysisBroken("lowest bit of an unknown number")
    k = b
    while not p[1] >> k & 1: k += 1
    if p[0] % (2 << k): raise AnalysisBroken("lowest bit of an unknown number")
    return C(k)


EXTRA = {"__gmpz_jacobi": m_jacobi, "__gmpz_legendre": m_jacobi, "__gmpz_kronecker": m_jacobi, "__gmpz_cmp": m_cmp("__gmpz_cmp"), "__gmpz_cmp_ui": m_cmp("__gmpz_cmp_ui"), "__gmpz_scan1": m_scan1}
for _n in ("tdiv_q_ui", "fdiv_q_ui", "divexact_ui", "tdiv_q_2exp", "fdiv_q_2exp"): EXTRA["__gmpz_" + _n] = m_divq


# ---------------------------------------------------------------- obligations
def invert(prog, n, al, prior, zero):
    D = setup(prog, n, {"A": (lambda p, rnd: [0]) if zero else (lambda p, rnd: [x for x in ll.residues(p, n, rnd) if x])}); it = D.it; st = D.st0
    it.bounds["A"] = (ZERO, ZERO) if zero else (ONE, RP)
    a = D.elem(st, "a", V("A")); c = a; kept = []
    if al == "apart": c, st = target(D, st, prior); kept = [(a, V("A"), "operand")]
    und = None; out = []
    for r, s in D.do("mpFp_inv", [c, a], [st]):
        r = num(r)
        z = it.icmp("eq", r, ZERO, s); t = it.truth(z, s) if z[0] != "c" else bool(z[1])
        if t != (not zero):
            if not feasible(it, s): continue
            w = witness(it, s)
            if w is not None and t is not None: return D, "bad", f"returns {'zero' if t else 'a nonzero status'} for {show(w, 'A', 'p')}"
            und = und or "status not decided"; continue
        out.append(s)
    if not out: return D, "und" if und else "bad", und or "never returns"
    r = judge(D, out, [] if zero else [(c, ("inv", V("A")))], kept)
    return (D, "und", und) if r[1] == "ok" and und else r


def root(prog, n, al, s, rhos, exps, case):
    und = None; D = None; paths = 0
    for rho in rhos:
        for ea in exps:
            N = 1 << s
            zs = [(2, 1)] if case != "residue" or al == "new" else [(2, e) for e in ((1, 3, N - 1) if s > 1 else (1,))] + [(3, 1), (5, 1)]
            for zval, ez in zs:
                if case == "residue" and al != "apart" and (zval, ez) != (2, 1): continue
                D = Limbs(prog, n, EXTRA); it = D.it; it.unroll = 1 << 20; it.maxsteps = 4000000
                it.cycles = lambda fn, b: f"{rel(prog.loc(fn.blocks[b].insts[-1])[0])}:{prog.loc(fn.blocks[b].insts[-1])[1]}"; it.rounds = 20 * s + 200
                G = Group(D, s, rho); it.G = G; G.zval = zval; G.ez = ez % N
                if case == "residue": A = G.g(ea, {"a": Fraction(1)})
                elif case == "zero": A = ZERO
                else: A = G.g(ea, {"a": Fraction(1)})
                st = D.st0
                if not feasible(it, st): return D, "und", "no such field"
                a = D.elem(st, "a", A); c = a
                if al == "new": c, st = target(D, st, "new")
                elif al == "apart": c, st = target(D, st, "other-field")
                S = []
                what = f"p = 2^{s} q + 1 with q = {rho} mod {4 * N}, operand {'0' if A == ZERO else f'h^{ea}'} times an odd-order element, first non-residue {zval}"
                for r, t in D.do("mpFp_sqrt", [c, a], [st]):
                    r = num(r)
                    if r[0] != "c": und = und or "status not constant"; continue
                    if (r[1] == 0) != (case != "non-residue"):
                        if not feasible(it, t): continue
                        if it.doubt or G.vague or t.ghost.get("guess"): und = und or "status depends on an undecided comparison"; continue
                        return D, "bad", f"returns {r[1]}: {what}"
                    S.append(t)
                if not S and not und and not it.doubt: return D, "bad", f"never returns: {what}"
                for t in S:
                    paths += 1
                    if c != a:
                        pb, v = D.read(t, a)
                        if pb or v != A: return D, "bad", f"the operand changes: {what}"
                    if case == "non-residue": continue
                    pb, v = D.read(t, c)
                    if not feasible(it, t): continue
                    if pb: return D, "bad", f"{pb}: {what}"
                    if case == "zero":
                        if not ll.equal(it, t, v, ZERO): return D, "bad", f"the root of 0 is not 0: {what}"
                        continue
                    x = G.parts(t, v)
                    if x is None: und = und or f"the result is not expressed in the group ({str(v)[:60]})"; continue
                    y = G.g(2 * x[0], {k: 2 * f for k, f in x[1].items()})
                    if y != A:
                        if it.doubt or t.ghost.get("guess"): und = und or it.doubt or "an undecided comparison"; continue
                        return D, "bad", f"the result squared is not the operand: {what}"
                if it.doubt: und = und or it.doubt
                if G.vague: und = und or "an equality depends on the field"
    return D, "und" if und else "ok", und or f"{paths} paths"
