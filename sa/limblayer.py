"""The field layer at the level of machine words.  The value of a word array is an integer term; word i of the integer X
is the atom ("limb", X, i).  GMP integers have a header (allocation, size, pointer) and either an abstract value (a cell
of domain "z") or words in their buffer; reading size or words of an abstract value partitions the state over its size.
What is known about magnitudes is a set of linear inequalities (see linarith); a claim about a path is proved from them.
A claim that is not proved is checked at sample values that satisfy everything the path assumed: one counterexample makes
it a violation, none leaves it undecided."""
import random
from scen import *
import absint
from absint import num, Interp, b2i
from llir import Violation, AnalysisBroken
from linarith import empty

B = 1 << 64
P = ("v", "p")


def V(n): return ("v", n)
def limb(x, i): return ("limb", x, i)


def u64(t):
    """a constant seen as a word"""
    return C(t[1] & (B - 1)) if t[0] == "c" else t


def haslimb(t):
    if not isinstance(t, tuple): return False
    if t and t[0] in ("limb", "bor", "w64", "umod", "udiv", "v", "band", "bxor"): return True
    return any(haslimb(x) for x in t if isinstance(x, tuple))


# ---------------------------------------------------------------- evaluation at a sample
class NoValue(Exception): pass


class Sample:
    def __init__(self, v): self.v = v; self.memo = {}

    def ev(self, t):
        k = t[0]
        if k == "c": return t[1]
        if k == "v":
            if t[1] not in self.v: raise NoValue
            return self.v[t[1]]
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self._ev(t)
        return r

    def _ev(self, t):
        k = t[0]; ev = self.ev
        if k == "lin": return t[1] + sum(c * ev(a) for a, c in t[2])
        if k == "prod":
            r = 1
            for a in t[1]: r *= ev(a)
            return r
        if k == "limb": return (ev(t[1]) >> (64 * t[2])) & (B - 1)
        if k in ("mod", "umod"):
            m = ev(t[2]) if k == "umod" else self.v["p"]
            if m == 0: raise NoValue
            return ev(t[1]) % m
        if k == "udiv":
            m = ev(t[2])
            if m == 0: raise NoValue
            return ev(t[1]) // m
        if k == "inv":
            try: return pow(ev(t[1]), -1, self.v["p"])
            except ValueError: raise NoValue
        if k == "pow":
            b, e = ev(t[1]), ev(t[2])
            try: return pow(b, e, self.v["p"])
            except ValueError: raise NoValue
        if k == "w64":
            a, b = ev(t[2]), ev(t[3])
            return {"add": a + b, "sub": a - b, "mul": a * b}[t[1]] % B
        if k == "bor": return ev(t[1]) | ev(t[2])
        if k == "band": return ev(t[1]) & ev(t[2])
        if k == "bxor": return ev(t[1]) ^ ev(t[2])
        if k == "tstbit": return (ev(t[1]) >> ev(t[2])) & 1
        if k == "bitlen": return ev(t[1]).bit_length()
        if k == "b2i": return int(self.cond(t[1]))
        if k == "sel": return ev(t[2]) if self.cond(t[1]) else ev(t[3])
        raise NoValue

    def cond(self, c):
        k = c[0]
        if k == "c": return bool(c[1] & 1)
        if k == "not": return not self.cond(c[1])
        if k == "b2i": return self.cond(c[1])
        if k == "bandb": return self.cond(c[1]) and self.cond(c[2])
        if k == "borb": return self.cond(c[1]) or self.cond(c[2])
        if k == "cmp" and len(c) == 3 and c[1] in absint.NEG:
            d = self.ev(c[2])
            return {"eq": d == 0, "ne": d != 0, "slt": d < 0, "sle": d <= 0, "sgt": d > 0, "sge": d >= 0}[c[1]]
        raise NoValue

    def satisfies(self, st):
        for t in st.ghost.get("lin", ()):
            if self.ev(t) < 0: return False
        for k, (lo, hi, ex) in st.rng.items():
            x = self.ev(k)
            if x < lo or x > hi or x in ex: return False
        for c, v in st.bools.items():
            if c[0] in ("null",): continue
            if self.cond(c) != v: return False
        return True


# ---------------------------------------------------------------- magnitudes
def know(st, *ts):
    """add facts t >= 0"""
    old = st.ghost.get("lin", ())
    new = [t for t in ts if t not in old and not (t[0] == "c" and t[1] >= 0)]
    if new: st.ghost["lin"] = old + tuple(new)


def words(st, x):
    """number of words that hold x, as noted when its words were first named"""
    if x[0] == "c": return (x[1].bit_length() + 63) // 64
    return st.ghost.get(("nl", x))


def atoms_of(ts):
    out = set()
    for t in ts: out |= set(lin_parts(t)[1])
    return out


def system(it, st, extra):
    """all facts that bear on the given forms"""
    ineq = list(st.ghost.get("lin", ())) + list(extra); eqs = []
    for k, (lo, hi, ex) in st.rng.items():
        if lo == hi: eqs.append(add(k, C(-int(lo)))); continue
        if lo != -absint.INF: ineq.append(add(k, C(-int(lo))))
        if hi != absint.INF: ineq.append(sub(C(int(hi)), k))
    done = set(); todo = atoms_of(ineq + eqs)
    while todo:
        a = todo.pop()
        if a in done: continue
        done.add(a); new = []
        if a[0] == "limb":
            x, i = a[1], a[2]
            ineq += [a, sub(C(B - 1), a)]
            n = words(st, x)
            if n is not None and ("X", x) not in done:
                done.add(("X", x))
                s = x
                for j in range(n): s = sub(s, mulc(limb(x, j), B ** j))
                eqs.append(s); new.append(s)
        elif a[0] == "v":
            lo, hi = it.bounds.get(a[1], (None, None))
            if lo is not None: ineq.append(sub(a, lo)); new.append(lo)
            if hi is not None: ineq.append(sub(hi, a)); new.append(hi)
        elif a[0] in ("mod", "pow"): ineq += [a, sub(sub(P, ONE), a)]; new.append(P)
        elif a[0] in ("inv", "g"): ineq += [sub(a, ONE), sub(sub(P, ONE), a)]; new.append(P)
        elif a[0] == "prod":
            lo, hi = span(it, st, a)
            ineq.append(sub(a, C(lo)))
            if hi is not None: ineq.append(sub(C(hi), a))
        elif a[0] == "umod": ineq += [a, sub(sub(a[2], ONE), a), sub(a[1], a)]; new += [a[1], a[2]]
        elif a[0] in ("w64", "bor", "band"): ineq += [a, sub(C(B - 1), a)]
        elif a[0] in ("b2i", "tstbit"): ineq += [a, sub(ONE, a)]
        elif a[0] == "bitlen": ineq.append(a)
        todo |= atoms_of(new) - done
    return ineq, eqs


def span(it, st, t):
    """constant bounds (lo, hi or None) of a term that is never negative"""
    if t[0] == "c": return t[1], t[1]
    if t[0] == "v":
        lo, hi = it.bounds.get(t[1], (None, None))
        l = span(it, st, lo)[0] if lo is not None else None
        h = span(it, st, hi)[1] if hi is not None else None
        return l, h
    if t[0] in ("limb", "w64", "bor", "band"): return 0, B - 1
    if t[0] in ("mod", "pow", "inv", "g"): return (0 if t[0] in ("mod", "pow") else 1), span(it, st, P)[1] - 1
    if t[0] == "umod":
        h = [x for x in (span(it, st, t[1])[1], (span(it, st, t[2])[1] or 1) - 1) if x is not None]; return 0, min(h) if h else None
    if t[0] == "prod":
        lo = hi = 1
        for a in t[1]:
            l, h = span(it, st, a)
            lo = lo * l if lo is not None and l is not None and l >= 0 else None
            hi = hi * h if hi is not None and h is not None and lo is not None else None
        return (lo if lo is not None else None), hi
    if t[0] == "lin":
        lo = hi = t[1]
        for a, c in t[2]:
            l, h = span(it, st, a)
            if c < 0: l, h = h, l
            lo = lo + c * l if lo is not None and l is not None else None
            hi = hi + c * h if hi is not None and h is not None else None
        return lo, hi
    return None, None


def feasible(it, st, extra=()):
    """False when the state is contradictory (with the extra facts t >= 0)"""
    ineq, eqs = system(it, st, list(extra))
    return empty(ineq, eqs) is not True


def entails(it, st, t):
    """is t >= 0 in every concretisation? True or None"""
    lo, hi = span(it, st, t)
    if lo is not None and lo >= 0: return True
    return True if not feasible(it, st, [sub(C(-1), t)]) else None


def equal(it, st, a, b):
    if a == b: return True
    d = sub(a, b)
    return True if entails(it, st, d) and entails(it, st, mulc(d, -1)) else None


def split(it, st, *alts):
    """[(alternative index, state)] for the feasible ones; an alternative is a list of facts t >= 0"""
    out = []
    for i, fs in enumerate(alts):
        if not feasible(it, st, fs): continue
        s = st.copy(); know(s, *fs); out.append((i, s))
    return out


# ---------------------------------------------------------------- word arrays
class Here:
    it = None; I = None


def where(it, I):
    if I is None or getattr(I, "dbg", None) is None: return ""
    f, l = it.p.loc(I); return f" ({rel(f)}:{l})"


def capacity(st, oid):
    o = st.r(oid)
    if o.meta.get("cap") is not None: return o.meta["cap"]
    if o.size is not None: return o.size
    s = o.meta.get("size")
    return s[1] if s is not None and s[0] == "c" else None


def span_check(it, I, st, p, n, what):
    if p[0] != "p": raise AnalysisBroken("words at an unknown address")
    oid, off = p[1], p[2]; o = st.r(oid)
    if o.freed: raise Violation(f"words of a released buffer are {what}{where(it, I)}")
    if off[0] != "c": raise AnalysisBroken("words at an unknown offset")
    cap = capacity(st, oid)
    if cap is not None and (off[1] < 0 or off[1] + 8 * n > cap):
        raise Violation(f"word {(off[1] + 8 * n) // 8 - 1} of a buffer of {cap // 8} words is {what}{where(it, I)}")
    return oid, off[1]


def rdcells(it, I, st, p, n):
    oid, off = span_check(it, I, st, p, n, "read"); out = []
    for i in range(n):
        v = st.get(oid, C(off + 8 * i))
        if v is None and st.zero_at(oid, C(off + 8 * i), 8): v = ZERO
        if v is None or v[0] == "uninit": raise Violation(f"word {off // 8 + i} of {st.r(oid).name} is read but was never written{where(it, I)}")
        out.append(u64(v))
    return out


def value(it, st, cells):
    """the integer of a word array"""
    t = ZERO
    for i, c in enumerate(cells): t = add(t, mulc(c, B ** i))
    # all words of X make X
    c, d = lin_parts(t)
    for X in {a[1] for a in d if a[0] == "limb"}:
        m = {a[2]: k for a, k in d.items() if a[0] == "limb" and a[1] == X}
        n = words(st, X); r = m.get(0)
        if not r or n is None: continue
        k = max(m) + 1
        if set(m) != set(range(k)) or any(m[i] != r * B ** i for i in m): continue
        if k >= n or entails(it, st, sub(C(B ** k - 1), X)):
            for i in m: t = sub(t, mulc(limb(X, i), m[i]))
            t = add(t, mulc(X, r))
    return t


def rdn(it, I, st, p, n): return value(it, st, rdcells(it, I, st, p, n))


def wrn(it, I, st, p, n, X):
    """write the n words of X, known to be in [0, B^n)"""
    oid, off = span_check(it, I, st, p, n, "written")
    if X[0] == "c":
        for i in range(n): st.put(oid, C(off + 8 * i), 8, C((X[1] >> (64 * i)) & (B - 1)))
        return
    name(st, X, n)
    for i in range(n): st.put(oid, C(off + 8 * i), 8, limb(X, i))


def name(st, X, n):
    """X has n words"""
    if X[0] == "c": return
    k = ("nl", X)
    if st.ghost.get(k) is None or st.ghost[k] > n: st.ghost[k] = n


# ---------------------------------------------------------------- GMP integers
def zhdr(it, I, p, st):
    if p[0] != "p": raise AnalysisBroken("integer at an unknown address")
    if p[2][0] != "c": raise AnalysisBroken("integer at an unknown offset")
    if st.r(p[1]).freed: raise Violation(f"an integer in released memory is used{where(it, I)}")
    return p[1], p[2][1]


def newbuf(it, st, n, nm):
    k = it.bufs = it.bufs + 1
    oid = ("M", ("limbs", k)); o = Obj("malloc", None, nm); o.meta["cap"] = 8 * n; o.meta["nonnull"] = True
    st.heap[oid] = o
    return ("p", oid, ZERO)


def zinit(it, I, st, p, alloc, X=ZERO):
    oid, off = zhdr(it, I, p, st)
    st.put(oid, C(off), 4, C(alloc)); st.put(oid, C(off + 4), 4, ZERO)
    st.put(oid, C(off + 8), 8, newbuf(it, st, alloc, f"the words of {st.r(oid).name}"))
    zput(it, I, st, p, X)


def zput(it, I, st, p, X):
    """give the integer a new abstract value"""
    oid, off = zhdr(it, I, p, st)
    live(it, I, st, oid, off)
    if st.r(oid).freed: raise Violation(f"released memory is written{where(it, I)}")
    st.w(oid).cells.pop(C(off + 4), None)
    st.put(oid, C(off), 16, X, dom="z")
    b = st.get(oid, C(off + 8))
    if b is not None and b[0] == "p" and b[1] in st.heap: o = st.w(b[1]); o.cells = absint.Cells(); o.zero = ()


def live(it, I, st, oid, off):
    if st.get(oid, C(off)) is None and st.get(oid, C(off), dom="z") is None and st.r(oid).kind == "alloca":
        raise Violation(f"an integer that was not initialised is used{where(it, I)}")


def zget(it, I, st, p):
    """value of an integer (a size that counts leading zero words is tolerated: see needs_normal)"""
    oid, off = zhdr(it, I, p, st)
    x = st.get(oid, C(off), dom="z")
    if x is not None: return x
    sz = st.get(oid, C(off + 4)); b = st.get(oid, C(off + 8))
    if sz is None or b is None: raise Violation(f"an integer that was not initialised is used{where(it, I)}")
    if sz[0] != "c": raise AnalysisBroken("integer of unknown size")
    n = abs(sz[1])
    if n == 0: return ZERO
    t = rdn(it, I, st, b, n)
    return t if sz[1] > 0 else mulc(t, -1)


def needs_normal(it, I, st, p, what):
    """functions that take the size for the magnitude: the top word must not be zero"""
    oid, off = zhdr(it, I, p, st)
    if st.get(oid, C(off), dom="z") is not None: return
    sz = st.get(oid, C(off + 4))
    if sz is None or sz[0] != "c" or sz[1] == 0: return
    cells = rdcells(it, I, st, st.get(oid, C(off + 8)), abs(sz[1])); t = cells[-1]
    if t[0] == "c":
        if t[1] == 0: raise Violation(f"{what} compares the number of words, but the operand may have leading zero words{where(it, I)}")
        return
    if entails(it, st, sub(t, ONE)): return
    s = st.copy(); know(s, mulc(t, -1))
    if witness(it, s): raise Violation(f"{what} compares the number of words, but the operand may have leading zero words{where(it, I)}")
    raise AnalysisBroken("leading zero words not decided")


def materialise(it, I, st, oid, off):
    """[states] in which the size of the abstract value is a constant and its words are in the buffer"""
    X = st.get(oid, C(off), dom="z"); al = st.get(oid, C(off)); b = st.get(oid, C(off + 8)); out = []
    n = maxwords(it, st, X)
    if n is None: raise AnalysisBroken("size of an integer not bounded")
    alts = [[mulc(X, -1), X]]
    for k in range(1, n + 1): alts.append([sub(X, C(B ** (k - 1))), sub(C(B ** k - 1), X)])
    lo, hi = span(it, st, X)
    if lo is None or lo < 0:
        for k in range(1, n + 1): alts.append([sub(mulc(X, -1), C(B ** (k - 1))), sub(C(B ** k - 1), mulc(X, -1))])
    for i, s in split(it, st, *alts):
        k = i if i <= n else -(i - n); Y = X if i <= n else mulc(X, -1)
        del s.w(oid).cells[("z", C(off))]
        if abs(k) * 8 > (capacity(s, b[1]) or 0):
            nb = newbuf(it, s, abs(k), s.r(b[1]).name); s.w(b[1]).freed = True
            s.put(oid, C(off), 4, C(abs(k))); s.put(oid, C(off + 8), 8, nb); bb = nb
        else: bb = b
        s.put(oid, C(off + 4), 4, C(k))
        if k: wrn(it, I, s, bb, abs(k), Y if Y[0] != "c" else Y)
        out.append(s)
    return out


def maxwords(it, st, X):
    lo, hi = span(it, st, X)
    for k in range(0, 70):
        if hi is not None and hi < B ** k and lo is not None and lo > -B ** k: return k
    for k in range(0, 40):
        if entails(it, st, sub(C(B ** k - 1), X)) and entails(it, st, add(C(B ** k - 1), X)): return k
    return None


# ---------------------------------------------------------------- interpreter
class LimbInterp(Interp):
    unroll_counted = True; cycles = None; rounds = 20000

    def __init__(self, *a):
        Interp.__init__(self, *a); self.bufs = 0; self.bounds = {}; self.samples = []

    def pre_load(self, I, p, ty, st):
        """an abstract integer whose size or words are read is split over its size"""
        if p[0] != "p" or p[2][0] != "c": return None
        oid, off = p[1], p[2][1]
        for d in (4, 8):
            if st.get(oid, C(off - d), dom="z") is not None: return materialise(self, I, st, oid, off - d)
        return None

    def load(self, I, p, ty, st):
        if p[0] == "p" and p[2][0] == "c" and ty.k == "i" and ty.n == 64:
            cap = capacity(st, p[1])
            if cap is not None and (p[2][1] < 0 or p[2][1] + 8 > cap):
                raise Violation(f"word {p[2][1] // 8} of a buffer of {cap // 8} words is read{where(self, I)}")
            o = st.r(p[1])
            if o.freed: raise Violation(f"words of a released buffer are read{where(self, I)}")
            if p[2] not in o.cells and not st.zero_at(p[1], p[2], 8) and o.kind in ("malloc", "alloca"):
                raise Violation(f"word {p[2][1] // 8} of {o.name} is read but was never written{where(self, I)}")
        return Interp.load(self, I, p, ty, st)

    def store(self, I, p, v, ty, st):
        if p[0] == "p" and p[2][0] == "c":
            cap = capacity(st, p[1]); n = I.fn.module.layout.size(ty)
            if cap is not None and (p[2][1] < 0 or p[2][1] + n > cap):
                raise Violation(f"word {p[2][1] // 8} of a buffer of {cap // 8} words is written{where(self, I)}")
            if st.r(p[1]).freed: raise Violation(f"words of a released buffer are written{where(self, I)}")
            off = p[2][1]
            for d in (0, 4, 8):      # a header that is written by hand
                c = st.get(p[1], C(off - d), dom="z")
                if c is not None and (d or n == 4):
                    if d == 4: del st.w(p[1]).cells[("z", C(off - d))]
                    elif d == 8: raise AnalysisBroken("pointer of an abstract integer is replaced")
            if v[0] == "c" and n == 8: v = u64(v)
        elif p[0] == "p" and p[2][0] != "c": raise AnalysisBroken("store at an unknown offset")
        Interp.store(self, I, p, v, ty, st)

    def binop(self, op, ty, a, b, st):
        if op == "and" and ty.k == "i" and hasattr(self, "bit"):
            for x, y in ((a, b), (b, a)):
                if x[:2] == ("op", "trunc"): x = x[2]
                if y == ONE and x[0] == "limb" and x[2] == 0:
                    r = self.bit(st, x[1], ZERO)
                    if r is not None: return r
        if ty.k == "i" and ty.n == 64 and (haslimb(a) or haslimb(b)):
            a, b = u64(num(a)), u64(num(b))
            if op in ("add", "sub", "mul"):
                if a[0] == "p" or b[0] == "p": return Interp.binop(self, op, ty, a, b, st)
                t = {"add": add, "sub": sub, "mul": mul}[op](a, b)
                if entails(self, st, t) and entails(self, st, sub(C(B - 1), t)): return t
                return ("w64", op, a, b)
            if op == "xor":
                xs = []
                for t in (a, b):
                    for y in self.flatx(t):
                        if y in xs: xs.remove(y)
                        else: xs.append(y)
                xs.sort(key=repr); r = ZERO
                for y in xs: r = y if r == ZERO else ("bxor", r, y)
                return r
            if op == "and":
                for x, y in ((a, b), (b, a)):
                    if x == ZERO: return ZERO
                    if x == C(B - 1): return y
                return ("band", a, b)
            if op in ("urem", "udiv") and b[0] == "limb" and words(st, b[1]) == 1: b = b[1]
            if op == "urem" and b == P: return mod(self, st, a)
            if op in ("urem", "udiv"): return ({"urem": "umod", "udiv": "udiv"}[op], a, b)
            if op in ("sdiv", "srem", "ashr"): return ("op", op, a, b)
        return Interp.binop(self, op, ty, a, b, st)

    def icmp(self, pred, a, b, st, ty=None):
        if ty is not None and ty.k == "i" and ty.n == 64 and (haslimb(a) or haslimb(b)) and a[0] not in ("p", "b2i") and b[0] not in ("p", "b2i"):
            if pred[0] == "s": return ("op", pred, a, b)
            a, b = u64(num(a)), u64(num(b))
            if pred[0] == "u": pred = "s" + pred[1:]
            d = sub(a, b); r = self.truth(("cmp", pred, d), st)
            return C(int(r)) if r is not None else ("cmp", pred, d)
        return Interp.icmp(self, pred, a, b, st, ty)

    def simple(self, fn, I, env, st, fid):
        if I.op == "cast" and I.x["cast"] == "trunc":
            v = self.const(fn, I.args[0][0], I.args[0][1], env, st)
            if v[0] not in ("c", "undef", "b2i") and haslimb(v) and I.args[0][0].n == 64: return ("op", "trunc", v)
        if I.op == "alloca":
            r = Interp.simple(self, fn, I, env, st, fid); return r
        return Interp.simple(self, fn, I, env, st, fid)

    def unroll_ok(self, fn, b, env, st):
        """a back edge that is taken: the same complete state twice on one path is a loop without end"""
        if not self.cycles: return True
        key = (fn.name, b, tuple(sorted(env.items(), key=lambda x: str(x[0]))),
               tuple(sorted((repr(oid), tuple(sorted(o.cells.items(), key=repr))) for oid, o in st.heap.items() if not o.freed and o.kind != "const")))
        h = hash(key); seen = st.ghost.get(("seen", fn.name, b), {})
        if h in seen and key in seen[h]:
            if st.ghost.get("guess"): raise AnalysisBroken("a loop whose end depends on an undecided comparison")
            raise Violation(f"the loop at {self.cycles(fn, b)} never ends: a state repeats")
        seen = dict(seen); seen[h] = seen.get(h, ()) + (key,)
        st.ghost[("seen", fn.name, b)] = seen
        if sum(len(v) for v in seen.values()) > self.rounds: raise AnalysisBroken("loop longer than expected")
        return True

    def flatx(self, t):
        return self.flatx(t[1]) + self.flatx(t[2]) if t[0] == "bxor" else [] if t == ZERO else [t]

    def flat(self, t):
        return self.flat(t[1]) + self.flat(t[2]) if t[0] == "bor" else [t]

    def truth(self, c, st):
        if c[0] == "cmp" and len(c) == 3 and c[1] in absint.NEG:
            r = st.cmp0(c[1], c[2])
            if r is not None: return r
            if c[2][0] == "bor" and c[1] in ("eq", "ne", "sgt", "sle"):
                eq = c[1] in ("eq", "sle"); ts = [self.truth(x[1] if x[0] == "b2i" else ("cmp", "ne", x), st) for x in self.flat(c[2])]
                if True in ts: return not eq
                if all(x is False for x in ts): return eq
                return None
            if haslimb(c[2]):
                d = c[2]; pr = c[1]
                ge = lambda t: entails(self, st, t)
                if pr in ("slt", "sge"):
                    if ge(d): return pr == "sge"
                    if ge(sub(C(-1), d)): return pr == "slt"
                elif pr in ("sgt", "sle"):
                    if ge(sub(d, ONE)): return pr == "sgt"
                    if ge(mulc(d, -1)): return pr == "sle"
                else:
                    if ge(sub(d, ONE)) or ge(sub(C(-1), d)): return pr == "ne"
                    if ge(d) and ge(mulc(d, -1)): return pr == "eq"
                return None
        return Interp.truth(self, c, st)

    def assume(self, c, val, st):
        if c[0] == "cmp" and len(c) == 3 and c[1] in absint.NEG:
            if c[2][0] == "bor" and c[1] in ("eq", "ne", "sgt", "sle"):
                zero = (c[1] in ("eq", "sle")) == val; fs = self.flat(c[2])
                if zero:
                    return all(self.assume(x[1], False, st) if x[0] == "b2i" else self.assume(("cmp", "eq", x), True, st) for x in fs)
                ls = {}
                for x in fs:
                    if x[0] == "limb": ls.setdefault(x[1], set()).add(x[2])
                if len(ls) == 1 and all(x[0] == "limb" for x in fs):
                    X, = ls
                    n = words(st, X)
                    if n is not None and ls[X] >= set(range(n)):
                        if not feasible(self, st, [sub(X, ONE)]): return False
                        know(st, sub(X, ONE)); return True
                if not feasible(self, st): return False
                st.bools[("cmp", "ne", c[2])] = True
                return True
            if haslimb(c[2]):
                pr = c[1] if val else absint.NEG[c[1]]; d = c[2]
                if pr == "ne":
                    r = self.truth(("cmp", "ne", d), st)
                    if r is False: return False
                    if entails(self, st, d): know(st, sub(d, ONE))
                    elif entails(self, st, mulc(d, -1)): know(st, sub(C(-1), d))
                    else: st.bools[("cmp", "ne", d)] = True
                    return True
                fs = {"eq": [d, mulc(d, -1)], "slt": [sub(C(-1), d)], "sle": [mulc(d, -1)], "sgt": [sub(d, ONE)], "sge": [d]}[pr]
                if not feasible(self, st, fs): return False
                know(st, *fs); return True
        return Interp.assume(self, c, val, st)


def witness(it, st):
    """a sample that satisfies everything the state assumed, or None; NoValue counts as None"""
    for s in it.samples:
        try:
            if s.satisfies(st): return s
        except NoValue: pass
    return None


def show(s, *names):
    return ", ".join(f"{n} = {hex(s.v[n]) if isinstance(s.v[n], int) else s.v[n]}" for n in names if n in s.v)


# ---------------------------------------------------------------- models
L = {}


def model(*names):
    def deco(f):
        for n in names: L[n] = f
        return f
    return deco


def cn(t, what="word count"):
    t = num(t)
    if t[0] != "c": raise AnalysisBroken(f"{what} not constant")
    return t[1]


def nonneg(it, I, st, n):
    if n < 0: raise Violation(f"an operation on {n} words{where(it, I)}")


def addsub(it, I, st, rp, a, b, n, sg):
    """n-word a + b or a - b: (carry, state) outcomes"""
    t = add(a, b) if sg > 0 else sub(a, b); out = []
    alts = [[t, sub(C(B ** n - 1), t)], [sub(t, C(B ** n))] if sg > 0 else [sub(C(-1), t)]]
    for i, s in split(it, st, *alts):
        wrn(it, I, s, rp, n, t if i == 0 else add(t, C(-sg * B ** n))); out.append((C(i), s))
    return out


@model("__gmpn_add_n")
def _(it, I, a, st):
    n = cn(a[3]); return addsub(it, I, st, a[0], rdn(it, I, st, a[1], n), rdn(it, I, st, a[2], n), n, 1)


@model("__gmpn_sub_n")
def _(it, I, a, st):
    n = cn(a[3]); return addsub(it, I, st, a[0], rdn(it, I, st, a[1], n), rdn(it, I, st, a[2], n), n, -1)


@model("__gmpn_add_1")
def _(it, I, a, st):
    n = cn(a[2]); return addsub(it, I, st, a[0], rdn(it, I, st, a[1], n), u64(num(a[3])), n, 1)


@model("__gmpn_sub_1")
def _(it, I, a, st):
    n = cn(a[2]); return addsub(it, I, st, a[0], rdn(it, I, st, a[1], n), u64(num(a[3])), n, -1)


@model("__gmpn_add")
def _(it, I, a, st):
    n, m = cn(a[2]), cn(a[4]); return addsub(it, I, st, a[0], rdn(it, I, st, a[1], n), rdn(it, I, st, a[3], m), n, 1)


@model("__gmpn_sub")
def _(it, I, a, st):
    n, m = cn(a[2]), cn(a[4]); return addsub(it, I, st, a[0], rdn(it, I, st, a[1], n), rdn(it, I, st, a[3], m), n, -1)


def cnd(sg):
    def f(it, I, a, st):
        out = []; c = it.icmp("ne", num(a[0]), ZERO, st)
        t = it.truth(c, st)
        for b in ((t,) if t is not None else (True, False)):
            s = st.copy()
            if t is None and not it.assume(c, b, s): continue
            n = cn(a[4]); x = rdn(it, I, s, a[2], n)
            if b: out += addsub(it, I, s, a[1], x, rdn(it, I, s, a[3], n), n, sg)
            else: wrn(it, I, s, a[1], n, x); out.append((ZERO, s))
        return out
    return f


L["__gmpn_cnd_add_n"] = cnd(1); L["__gmpn_cnd_sub_n"] = cnd(-1)


@model("__gmpn_neg")
def _(it, I, a, st):
    n = cn(a[2]); return addsub(it, I, st, a[0], ZERO, rdn(it, I, st, a[1], n), n, -1)


def order(it, st, x, y):
    d = sub(x, y); out = []
    for i, s in split(it, st, [sub(C(-1), d)], [d, mulc(d, -1)], [sub(d, ONE)]): out.append((C(i - 1), s))
    if len(out) > 1:
        for _, s in out: s.ghost["guess"] = True
    return out


@model("__gmpn_cmp")
def _(it, I, a, st):
    n = cn(a[2]); return order(it, st, rdn(it, I, st, a[0], n), rdn(it, I, st, a[1], n))


@model("memcmp", "bcmp")
def _(it, I, a, st):
    n = cn(a[2])
    if n % 8: raise AnalysisBroken("comparison of bytes")
    out = []
    for v, s in order(it, st, rdn(it, I, st, a[0], n // 8), rdn(it, I, st, a[1], n // 8)):
        if v != ZERO:
            v = s.fresh((I.fn.name, I.blk, I.idx), "memcmp"); s.rng[v] = (-absint.INF, absint.INF, frozenset([0]))
        out.append((v, s))
    return out


@model("__gmpn_zero_p")
def _(it, I, a, st):
    n = cn(a[1]); return [(ONE if v == ZERO else ZERO, s) for v, s in order(it, st, rdn(it, I, st, a[0], n), ZERO)]


@model("__gmpn_copyi", "__gmpn_copyd")
def _(it, I, a, st):
    n = cn(a[2]); cs = rdcells(it, I, st, a[1], n); oid, off = span_check(it, I, st, a[0], n, "written")
    for i, c in enumerate(cs): st.put(oid, C(off + 8 * i), 8, c)


@model("__gmpn_zero")
def _(it, I, a, st): wrn(it, I, st, a[0], cn(a[1]), ZERO)


@model("__gmpn_mul_n")
def _(it, I, a, st):
    n = cn(a[3]); apart(it, I, a[0], a[1], a[2]); wrn(it, I, st, a[0], 2 * n, mul(rdn(it, I, st, a[1], n), rdn(it, I, st, a[2], n)))


@model("__gmpn_sqr")
def _(it, I, a, st):
    n = cn(a[2]); apart(it, I, a[0], a[1]); x = rdn(it, I, st, a[1], n); wrn(it, I, st, a[0], 2 * n, mul(x, x))


@model("__gmpn_mul")
def _(it, I, a, st):
    n, m = cn(a[2]), cn(a[4]); apart(it, I, a[0], a[1], a[3]); t = mul(rdn(it, I, st, a[1], n), rdn(it, I, st, a[3], m))
    wrn(it, I, st, a[0], n + m, t); return (limb(t, n + m - 1) if t[0] != "c" else C(t[1] >> (64 * (n + m - 1))))


def apart(it, I, r, *ps):
    for p in ps:
        if p[0] == "p" and r[0] == "p" and p[1] == r[1] and p[2] == r[2]: raise Violation(f"the product is written over a factor{where(it, I)}")


@model("__gmpn_mul_1")
def _(it, I, a, st):
    n = cn(a[2]); t = mul(rdn(it, I, st, a[1], n), u64(num(a[3])))
    oid, off = span_check(it, I, st, a[0], n, "written"); name(st, t, n + 1)
    for i in range(n): st.put(oid, C(off + 8 * i), 8, limb(t, i) if t[0] != "c" else C((t[1] >> (64 * i)) & (B - 1)))
    return limb(t, n) if t[0] != "c" else C(t[1] >> (64 * n))


def mod(it, st, t):
    """the residue of t"""
    t = redp(t)
    if t[0] == "c" and 0 <= t[1] and entails(it, st, sub(sub(P, ONE), t)): return t
    if t[0] in ("mod", "pow", "inv", "g"): return t
    if t[0] == "v" and it.bounds.get(t[1], (None, None)) in ((ZERO, sub(P, ONE)), (ONE, sub(P, ONE))): return t
    if hasattr(it, "group"):
        g = it.group(t)
        if g is not None: return g
    return ("mod", t)


def redp(t):
    """t without multiples of p and without inner reductions (same residue)"""
    c, d = lin_parts(t); r = C(c)
    for a, k in d.items():
        if a == P: continue
        if a[0] == "mod": x = redp(a[1])
        elif a[0] == "prod":
            if P in a[1]: continue
            x = ONE
            for f in a[1]: x = mul(x, redp(f) if f[0] == "mod" else f)
            if x != a: x = redp(x)
        else: x = a
        r = add(r, mulc(x, k))
    return r


@model("__gmpn_tdiv_qr")
def _(it, I, a, st):
    nn, dn = cn(a[4]), cn(a[6]); x, m = rdn(it, I, st, a[3], nn), rdn(it, I, st, a[5], dn)
    if m != P: raise AnalysisBroken("division by another number")
    span_check(it, I, st, a[0], nn - dn + 1, "written"); oid, off = a[0][1], a[0][2][1]
    for i in range(nn - dn + 1): st.put(oid, C(off + 8 * i), 8, ("op", "quotient"))
    wrn(it, I, st, a[1], dn, mod(it, st, x))


@model("__gmpz_init")
def _(it, I, a, st): zinit(it, I, st, a[0], 0)


@model("__gmpz_init2")
def _(it, I, a, st): zinit(it, I, st, a[0], max(1, (cn(a[1]) + 63) // 64))


@model("__gmpz_init_set")
def _(it, I, a, st): x = zget(it, I, st, a[1]); zinit(it, I, st, a[0], 1, x)


@model("__gmpz_init_set_ui")
def _(it, I, a, st): zinit(it, I, st, a[0], 1, u64(num(a[1])))


@model("__gmpz_clear")
def _(it, I, a, st):
    oid, off = zhdr(it, I, a[0], st); b = st.get(oid, C(off + 8))
    if b is None: raise Violation(f"an integer that was not initialised is cleared{where(it, I)}")
    o = st.w(b[1])
    if o.freed: raise Violation(f"an integer is cleared twice{where(it, I)}")
    o.freed = True


@model("__gmpz_realloc", "_mpz_realloc")
def _(it, I, a, st):
    n = max(cn(a[1]), 1); oid, off = zhdr(it, I, a[0], st); b = st.get(oid, C(off + 8))
    if b is None: raise Violation(f"an integer that was not initialised is used{where(it, I)}")
    nb = newbuf(it, st, n, st.r(b[1]).name); old = st.r(b[1])
    if old.freed: raise Violation(f"an integer is used after it was cleared{where(it, I)}")
    o = st.w(nb[1])
    for k, v in old.cells.items():
        if k[0] == "c" and k[1] + 8 <= 8 * n: o.cells[k] = v
    st.w(b[1]).freed = True
    st.put(oid, C(off), 4, C(n)) if st.get(oid, C(off), dom="z") is None else keepz(st, oid, off, n)
    st.put(oid, C(off + 8), 8, nb) if st.get(oid, C(off), dom="z") is None else st.w(oid).cells.__setitem__(C(off + 8), (8, nb))
    z = st.get(oid, C(off), dom="z"); sz = st.get(oid, C(off + 4))
    if z is None and sz is not None and sz[0] == "c" and abs(sz[1]) > n: st.put(oid, C(off + 4), 4, ZERO)     # what does not fit becomes 0
    if z is not None and not (entails(it, st, sub(C(B ** n - 1), z)) and entails(it, st, add(C(B ** n - 1), z))): raise AnalysisBroken("reallocation to an unknown size")
    return nb


def keepz(st, oid, off, n): st.w(oid).cells[C(off)] = (4, C(n))


@model("__gmpz_realloc2")
def _(it, I, a, st): return L["__gmpz_realloc"](it, I, [a[0], C((cn(a[1]) + 63) // 64)], st)


def setz(f):
    def g(it, I, a, st):
        zput(it, I, st, a[0], f(it, I, a, st))
    return g


def zof(it, I, st, p):
    return zget(it, I, st, p)


L["__gmpz_set"] = setz(lambda it, I, a, st: zof(it, I, st, a[1]))
L["__gmpz_set_ui"] = setz(lambda it, I, a, st: u64(num(a[1])))
L["__gmpz_add"] = setz(lambda it, I, a, st: add(zof(it, I, st, a[1]), zof(it, I, st, a[2])))
L["__gmpz_sub"] = setz(lambda it, I, a, st: sub(zof(it, I, st, a[1]), zof(it, I, st, a[2])))
L["__gmpz_mul"] = setz(lambda it, I, a, st: mul(zof(it, I, st, a[1]), zof(it, I, st, a[2])))
L["__gmpz_add_ui"] = setz(lambda it, I, a, st: add(zof(it, I, st, a[1]), u64(num(a[2]))))
L["__gmpz_sub_ui"] = setz(lambda it, I, a, st: sub(zof(it, I, st, a[1]), u64(num(a[2]))))
L["__gmpz_ui_sub"] = setz(lambda it, I, a, st: sub(u64(num(a[1])), zof(it, I, st, a[2])))
L["__gmpz_mul_ui"] = setz(lambda it, I, a, st: mul(zof(it, I, st, a[1]), u64(num(a[2]))))
L["__gmpz_neg"] = setz(lambda it, I, a, st: mulc(zof(it, I, st, a[1]), -1))


@model("__gmpz_addmul", "__gmpz_submul")
def _(it, I, a, st):
    sg = 1 if I.x["callee"][1].endswith("addmul") else -1
    zput(it, I, st, a[0], add(zget(it, I, st, a[0]), mulc(mul(zget(it, I, st, a[1]), zget(it, I, st, a[2])), sg)))


@model("__gmpz_mod", "__gmpz_fdiv_r", "__gmpz_tdiv_r")
def _(it, I, a, st):
    x, m = zget(it, I, st, a[1]), zget(it, I, st, a[2])
    if m != P: raise AnalysisBroken("reduction by another number")
    needs_normal(it, I, st, a[2], "division")
    if I.x["callee"][1] == "__gmpz_tdiv_r" and not entails(it, st, x):
        out = []
        for i, s in split(it, st, [x], [sub(C(-1), x)]):
            zput(it, I, s, a[0], mod(it, s, x) if i == 0 else mulc(mod(it, s, mulc(x, -1)), -1)); out.append((None, s))
        return out
    zput(it, I, st, a[0], mod(it, st, x))


@model("__gmpz_invert")
def _(it, I, a, st):
    x, m = zget(it, I, st, a[1]), zget(it, I, st, a[2])
    if m != P: raise AnalysisBroken("inverse modulo another number")
    needs_normal(it, I, st, a[1], "mpz_invert"); out = []
    r = mod(it, st, x)
    for i, s in split(it, st, [r, mulc(r, -1)], [sub(r, ONE)]):
        if i == 0:
            zput(it, I, s, a[0], ("op", "no inverse")); out.append((ZERO, s))
        else: zput(it, I, s, a[0], it.inverse(r) if hasattr(it, "inverse") else ("inv", r)); out.append((ONE, s))
    return out


def power(it, st, x, e):
    x = mod(it, st, x)
    if hasattr(it, "gpow"):
        g = it.gpow(st, x, e)
        if g is not None: return g
    if e == ONE: return x
    if x == ZERO and entails(it, st, sub(e, ONE)): return ZERO
    if e[0] == "c" and 0 <= e[1] <= 4:
        r = ONE
        for _ in range(e[1]): r = mul(r, x)
        return mod(it, st, r)
    return ("pow", x, e)


@model("__gmpz_powm_ui", "__gmpz_powm", "__gmpz_powm_sec")
def _(it, I, a, st):
    x, m = zget(it, I, st, a[1]), zget(it, I, st, a[3])
    e = u64(num(a[2])) if I.x["callee"][1].endswith("_ui") else zget(it, I, st, a[2])
    if m != P: raise AnalysisBroken("power modulo another number")
    if not entails(it, st, e) and not entails(it, st, sub(x, ONE)): raise AnalysisBroken("negative power of what may be zero")
    zput(it, I, st, a[0], power(it, st, x, e))


def zcmp(it, I, a, st):
    needs_normal(it, I, st, a[0], "mpz_cmp"); needs_normal(it, I, st, a[1], "mpz_cmp")
    return order(it, st, zget(it, I, st, a[0]), zget(it, I, st, a[1]))


L["__gmpz_cmp"] = zcmp


@model("__gmpz_cmp_ui")
def _(it, I, a, st):
    needs_normal(it, I, st, a[0], "mpz_cmp_ui"); return order(it, st, zget(it, I, st, a[0]), u64(num(a[1])))


@model("__gmpz_get_ui")
def _(it, I, a, st):
    x = zget(it, I, st, a[0])
    if x[0] == "c": return C(abs(x[1]) & (B - 1))
    n = maxwords(it, st, x)
    if n is None or not entails(it, st, x): raise AnalysisBroken("low word of an unknown number")
    name(st, x, n); return limb(x, 0)


@model("__gmpz_tstbit")
def _(it, I, a, st):
    x, b = zget(it, I, st, a[0]), num(a[1])
    if hasattr(it, "bit"):
        r = it.bit(st, x, b)
        if r is not None: return r
    return ("tstbit", x, b)


@model("__gmpz_sizeinbase")
def _(it, I, a, st):
    x = zget(it, I, st, a[0]); needs_normal(it, I, st, a[0], "mpz_sizeinbase")
    if x[0] == "c" and num(a[1]) == C(2): return C(max(1, x[1].bit_length()))
    return ("op", "sizeinbase", x, a[1])


@model("__gmpz_swap")
def _(it, I, a, st):
    (o1, f1), (o2, f2) = zhdr(it, I, a[0], st), zhdr(it, I, a[1], st)
    for k in (("z", 0), 0, 4, 8):
        d = k[1] if isinstance(k, tuple) else k
        k1 = ("z", C(f1)) if isinstance(k, tuple) else C(f1 + d); k2 = ("z", C(f2)) if isinstance(k, tuple) else C(f2 + d)
        v1, v2 = st.r(o1).cells.get(k1), st.r(o2).cells.get(k2)
        for o, kk, v in ((o1, k1, v2), (o2, k2, v1)):
            if v is None: st.w(o).cells.pop(kk, None)
            else: st.w(o).cells[kk] = v


@model("mpz_urandom")
def _(it, I, a, st): zput(it, I, st, a[0], it.random(I, a, st))


@model("__gmpz_limbs_read")
def _(it, I, a, st): raise AnalysisBroken("limb access functions are not modelled")


L["__gmpz_limbs_write"] = L["__gmpz_limbs_modify"] = L["__gmpz_limbs_finish"] = L["__gmpz_limbs_read"]


@model("llvm.memset", "memset")
def _(it, I, a, st):
    n = num(a[2])
    if n[0] == "c" and a[1] == ZERO and a[0][0] == "p" and a[0][2][0] == "c":
        cap = capacity(st, a[0][1])
        if cap is not None and a[0][2][1] + n[1] > cap: raise Violation(f"{n[1]} bytes are cleared in a buffer of {cap}{where(it, I)}")
        o = st.w(a[0][1]); st.kill(o, a[0][2], n[1]); o.zero = o.zero + ((a[0][2], n[1]),)
        return a[0]
    return models.M["memset"](it, I, a, st)


@model("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")
def _(it, I, a, st):
    n = num(a[2])
    if n[0] == "c" and n[1] % 8 == 0 and a[0][0] == "p" and a[1][0] == "p" and a[0][2][0] == "c" and a[1][2][0] == "c":
        k = n[1] // 8
        so = st.r(a[1][1])
        if so.kind in ("malloc", "alloca") and not any(key[0] in absint.DOMS for key in so.cells) and all(so.cells.get(add(a[1][2], C(8 * i)), (8,))[0] == 8 for i in range(k)):
            span_check(it, I, st, a[1], k, "read"); oid, off = span_check(it, I, st, a[0], k, "written")
            vs = [st.get(a[1][1], add(a[1][2], C(8 * i))) for i in range(k)]
            if all(v is not None for v in vs):
                for i, v in enumerate(vs): st.put(oid, C(off + 8 * i), 8, v)
                return a[0]
    it.memcopy(I, a[0], a[1], n, st)
    return a[0]


@model("_mpFp_field_lookup")
def _(it, I, a, st):
    x = zget(it, I, st, a[0])
    if x != P: raise AnalysisBroken("lookup of another field")
    return it.fieldptr


@model("exit", "abort", "__assert_fail", "_exit", "__assert_rtn")
def _(it, I, a, st):
    if feasible(it, st):
        w = witness(it, st)
        if w is not None: raise Violation(f"assertion failure{where(it, I)} for {show(w, *it.shown)}")
        it.doubt = f"assertion failure{where(it, I)} not excluded"
    return []


# ---------------------------------------------------------------- scenarios
class Limbs(Driver):
    """one prime field of n words; p has exactly n words"""

    def __init__(self, prog, n, models_=None, drop=()):
        mods = dict(models.M); mods.update(L)
        if models_: mods.update(models_)
        for k in drop: mods.pop(k, None)
        self.p = prog; self.it = it = models.setup(LimbInterp(prog, mods)); it.generic = False; it.vals = None
        self.st0 = State(); self.n = n
        it.unroll = 4000; it.maxsteps = 200000; it.doubt = None; it.keep_facts = True
        it.bounds["p"] = (C(max(2, B ** (n - 1))), C(B ** n - 1)); it.shown = ["p"]
        st = self.st0
        self.zp = self.zobj(st, "p", P, n, alloc=2 * n)
        fo = {k: v[0] for k, v in prog.offsets("_mpFp_field_struct").items()}
        self.fo = fo
        f = self.obj(st, "field", 48); o = st.heap[f[1]]
        self.rawz(st, f[1], fo["p"], P, n, 2 * n, "the modulus"); self.rawz(st, f[1], fo["pc"], V("pc"), n, 2 * n, "pc")
        o = st.w(f[1]); o.cells[C(fo["psize"])] = (8, C(n)); o.cells[C(fo["p2size"])] = (8, C(2 * n))
        self.field = it.fieldptr = f
        self.eo = {k: v[0] for k, v in prog.offsets("_mpFp_struct").items()}

    def rawz(self, st, oid, off, X, size, alloc, nm):
        b = newbuf(self.it, st, alloc, nm)
        o = st.w(oid)
        o.cells[C(off)] = (4, C(alloc)); o.cells[C(off + 4)] = (4, C(size)); o.cells[C(off + 8)] = (8, b)
        n = abs(size)
        if n:
            name(st, X, n)
            for i in range(n): st.w(b[1]).cells[C(8 * i)] = (8, limb(X, i) if X[0] != "c" else C((abs(X[1]) >> (64 * i)) & (B - 1)))
        return b

    def zobj(self, st, nm, X, size, alloc=None):
        """a GMP integer of the given size (negative: a negative number with magnitude X)"""
        p = self.obj(st, "z." + nm, 16)
        self.rawz(st, p[1], 0, X, size, alloc or max(1, abs(size)), "the words of " + nm)
        return p

    def elem(self, st, nm, X, field=None, n=None, alloc=None):
        """a field element with value X"""
        n = n or self.n
        p = self.obj(st, nm, 24)
        self.rawz(st, p[1], self.eo["i"], X, n, alloc or 2 * n, f"the words of {nm}")
        st.w(p[1]).cells[C(self.eo["fp"])] = (8, field or self.field)
        return p

    def read(self, st, p):
        """(problem or None, value) of a field element that should be canonical"""
        it = self.it; i = self.eo["i"]; n = self.n
        z = st.get(p[1], C(i), dom="z")
        if z is not None: return f"its size is that of the number, not the {n} words of the field", z
        sz = st.get(p[1], C(i + 4)); b = st.get(p[1], C(i + 8)); fp = st.get(p[1], C(self.eo["fp"]))
        if fp != self.field: return "it does not belong to the field", None
        if sz != C(n): return f"its size is {sz and sz[1]} words, not {n}", None
        if st.r(b[1]).freed: return "its words were released", None
        cells = []
        for k in range(n):
            v = st.get(b[1], C(8 * k))
            if v is None and st.zero_at(b[1], C(8 * k), 8): v = ZERO
            if v is None or v[0] == "uninit": return f"word {k} was never written", None
            cells.append(u64(v))
        al = st.get(p[1], C(i))
        if al is None or al[0] != "c" or 8 * al[1] > (capacity(st, b[1]) or 0): return "its allocation is not that of its buffer", None
        return None, value(it, st, cells)


def isprime(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0: return n == q
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True


_pr = {}


def primes_of(n):
    """representative primes of exactly n words"""
    if n in _pr: return _pr[n]
    rnd = random.Random(5 + n); out = []
    def up(x, d=1):
        while not isprime(x): x += d
        return x
    lo = B ** (n - 1)
    out.append(up(lo + 1 if n > 1 else 3)); out.append(up(B ** n - 1, -1))
    if n > 1: out.append(up(lo + B // 2)); out.append(up(2 * lo + 5))
    if n == 1: out += [5, 13, 101, (1 << 31) - 1, (1 << 61) - 1]
    out.append(up(B ** n // 2 + 1)); out.append(up(B ** n // 2 - 1, -1))
    for _ in range(2): out.append(up(rnd.randrange(lo + 2, B ** n * 3 // 4)))
    _pr[n] = out
    return out


def residues(p, n, rnd):
    c = {0, 1, 2, p - 1, p - 2, p // 2, p // 2 + 1, B - 1, B, B ** n - p, B ** n - p - 1, p - B ** (n - 1), B ** (n - 1), B ** (n - 1) - 1, B ** n // 2, rnd.randrange(p), rnd.randrange(p)}
    if n > 2: c |= {B ** 2, B ** 2 - 1, rnd.randrange(B)}
    return sorted(x for x in c if 0 <= x < p)


def samples(n, names, seed=3):
    """names: {name: kind}, kind 'r' residue, 'w' word, or a function p, rnd -> list"""
    rnd = random.Random(seed); out = []
    for p in primes_of(n):
        lists = []
        for nm, k in names.items():
            if k == "r": lists.append(residues(p, n, rnd))
            elif k == "w": lists.append(sorted({0, 1, 2, 3, B - 1, B - 2, B // 2, p % B, (p - 1) % B, (p + 1) % B, rnd.randrange(B)}))
            else: lists.append(k(p, rnd))
        def rec(i, d):
            if i == len(lists): out.append(Sample(dict(d, p=p))); return
            for x in lists[i]:
                d[list(names)[i]] = x; rec(i + 1, d)
        rec(0, {})
    return out
