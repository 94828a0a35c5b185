"""Forward abstract interpretation of LLVM IR with trace partitioning.

Abstract values are canonical terms (value numbering): linear integer forms over opaque atoms,
pointers (object, offset), and domain values (field elements as rational functions, ...).
The analysis is a worklist fixpoint over the control-flow graph.  States that reach a join point with
the same environment and heap are merged (their branch facts are intersected); states that differ
stay separate (trace partitioning), up to a bound after which they are joined cell by cell.
Loops are analysed by widening: everything an iteration changes becomes an unknown, until nothing
new changes.  No path condition is ever handed to a solver: branch facts are intervals and
disequalities on terms.
"""
import heapq, itertools
from terms import *
from llir import AnalysisBroken, rel

INF = float("inf")


class Cells(dict):
    """cells of an object by offset; remembers whether an offset that is not a constant was ever used"""
    __slots__ = ("sym", "wide")

    def __init__(self, d=()):
        dict.__init__(self, d)
        if isinstance(d, Cells): self.sym = d.sym; self.wide = d.wide
        else:
            self.sym = False; self.wide = 8
            for k in self: self.note(k, dict.__getitem__(self, k))

    def note(self, k, v):
        if k[0] in DOMS: k = k[1]
        elif isinstance(v[0], int) and v[0] > self.wide: self.wide = v[0]
        if k[0] != "c": self.sym = True

    def __setitem__(self, k, v):
        if k[0] != "c" or v[0] > self.wide: self.note(k, v)
        dict.__setitem__(self, k, v)

    def update(self, d):
        for k, v in d.items(): self[k] = v


class Obj:
    __slots__ = ("kind", "size", "cells", "zero", "res", "name", "freed", "meta", "own")

    def __init__(self, kind, size=None, name=""):
        self.kind = kind; self.size = size; self.cells = Cells(); self.zero = (); self.res = {}
        self.name = name; self.freed = False; self.meta = {}; self.own = None

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind, o.size, o.cells, o.zero, o.res, o.name, o.freed, o.meta = (
            self.kind, self.size, Cells(self.cells), self.zero, dict(self.res), self.name, self.freed, dict(self.meta))
        o.own = None
        return o

    def same(a, b):
        return a is b or (a.kind == b.kind and a.cells == b.cells and a.zero == b.zero and a.res == b.res
                          and a.freed == b.freed and a.meta == b.meta and a.size == b.size)


def off_delta(a, b):
    """constant a-b or None"""
    if a[0] == "c" and b[0] == "c": return a[1] - b[1]
    d = sub(a, b)
    return d[1] if d[0] == "c" else None


class State:
    __slots__ = ("heap", "rng", "bools", "ghost", "cnt", "trail", "rounds", "tok")

    def __init__(self):
        self.heap = {}; self.rng = {}; self.bools = {}; self.ghost = {}; self.cnt = {}; self.trail = (); self.rounds = frozenset(); self.tok = object()

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap); s.rng = dict(self.rng); s.bools = dict(self.bools)
        s.ghost = dict(self.ghost); s.cnt = dict(self.cnt); s.trail = self.trail; s.rounds = self.rounds
        s.tok = object(); self.tok = object()
        return s

    # ---- heap
    def w(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = Obj("lazy", None, str(oid)); self.heap[oid] = o; return o
        if o.own is self.tok: return o
        o = o.copy(); o.own = self.tok; self.heap[oid] = o; return o

    def r(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = Obj("lazy", None, str(oid)); self.heap[oid] = o
        return o

    def fresh(self, site, hint=""):
        k = self.cnt.get(site, 0); self.cnt[site] = k + 1
        return ("s", site, k, hint)

    def kill(self, o, off, size):
        """forget everything that may overlap [off, off+size)"""
        dead = []
        for key, (sz, v) in o.cells.items():
            koff = key[1] if key[0] in DOMS else key
            d = off_delta(koff, off)
            if d is None:
                if not self.disjoint(koff, sz, off, size): dead.append(key)
                continue
            if size is None:
                if d + sz > 0: dead.append(key)
            elif d < size and d + sz > 0: dead.append(key)
        for k in dead: del o.cells[k]
        if o.zero and dead is not None:
            nz = []
            for (zo, zs) in o.zero:
                d = off_delta(zo, off)
                if d is None: continue
                if size is None or (d < size and d + zs > 0):
                    # split
                    if size is not None:
                        if d < 0: nz.append((zo, -d))
                        e = d + zs - size
                        if e > 0: nz.append((add(off, C(size)), e))
                    elif d < 0: nz.append((zo, -d))
                else: nz.append((zo, zs))
            o.zero = tuple(nz)

    def disjoint(self, o1, s1, o2, s2):
        lo, hi = self.interval(sub(o1, o2))
        return lo != -INF and s2 is not None and lo >= s2 or hi != INF and hi + s1 <= 0

    def put(self, oid, off, size, val, dom=None):
        o = self.w(oid)
        if dom:
            o.cells[(dom, off)] = (size, val)
        else:
            self.kill_raw(o, off, size)
            o.cells[off] = (size, val)

    def kill_raw(self, o, off, size):
        # raw stores inside a domain value's footprint invalidate the raw view only for known header fields
        dead = []; c = o.cells.get(off)
        if c is not None and c[0] == size and off[0] == "c" and not o.zero:
            return      # replaces a cell; cells do not overlap
        if off[0] == "c" and not o.cells.sym and size <= 16 and o.cells.wide <= 16:
            k = off[1]; e = k + size
            for j in range(k - o.cells.wide + 1, e):
                x = o.cells.get(("c", j))
                if x is not None and k < j + x[0]: dead.append(("c", j))
            for x in dead: del o.cells[x]
            if o.zero:
                sv = Cells(o.cells); self.kill(o, off, size); o.cells = sv
            return
        for key, (sz, v) in o.cells.items():
            if key[0] in DOMS:
                d = off_delta(key[1], off)
                if d is None and not self.disjoint(key[1], sz, off, size): dead.append(key)
                continue
            d = off_delta(key, off)
            if d is None:
                if not self.disjoint(key, sz, off, size): dead.append(key)
            elif d < size and d + sz > 0: dead.append(key)
        for k in dead: del o.cells[k]
        if o.zero:
            sv = Cells(o.cells); self.kill(o, off, size); o.cells = sv

    def get(self, oid, off, dom=None):
        o = self.heap.get(oid)
        if o is None: return None
        k = (dom, off) if dom else off
        c = o.cells.get(k)
        return c[1] if c else None

    def zero_at(self, oid, off, size):
        o = self.heap.get(oid)
        if o is None: return False
        for zo, zs in o.zero:
            d = off_delta(off, zo)
            if d is not None and d >= 0 and d + size <= zs: return True
        return False

    # ---- facts
    def key(self, t):
        """split term into (normalised linear key, sign, const): t = sign*key + const"""
        if t[0] != "lin": return (None, 1, t[1]) if t[0] == "c" else (t, 1, 0)
        c, d = lin_parts(t)
        items = sorted(d.items(), key=lambda x: repr(x[0]))
        sg = 1 if items[0][1] > 0 else -1
        return mk_lin(0, {k: v * sg for k, v in d.items()}), sg, c

    def rof(self, k):
        return self.rng.get(k, DEF)

    def interval(self, t):
        k, sg, c = self.key(t)
        if k is None: return c, c
        lo, hi, ex = self.rof(k)
        if (lo, hi) == (-INF, INF):
            lo, hi = self.base_interval(k)
        if k[0] == "lin":
            l2 = h2 = 0
            for a, m in k[2]:
                al, ah = self.rof(a)[:2]
                if (al, ah) == (-INF, INF): al, ah = self.base_interval(a)
                l2 += m * (al if m > 0 else ah); h2 += m * (ah if m > 0 else al)
            lo = max(lo, l2); hi = min(hi, h2)
            if len(k[2]) == 2:      # a residue is less than its modulus
                for (x, c1), (y, c2) in (k[2], k[2][::-1]):
                    if x[0] == "int" and c1 == -c2 and x[1].fp == ("p", ("F", y), ZERO):
                        if c1 > 0: hi = min(hi, -c1)
                        else: lo = max(lo, -c1)
        if sg > 0: return lo + c, hi + c
        return -hi + c, -lo + c

    def base_interval(self, a):
        if a[0] == "u": return 0, (1 << a[1]) - 1          # unsigned value of given width
        if a[0] in ("byte", "hex2"): return 0, 255
        if a[0] == "num": return self.interval(a[1])
        if a[0] == "hexd": return 48, 102
        if a[0] == "prod":
            lo = 1
            for f in a[1]:
                l, h = self.interval(f)
                if l < 0: return -INF, INF
                lo *= l
            return lo, INF
        if a[0] in ("strlen", "sizeinbase"): return (1 if a[0] == "sizeinbase" else 0), INF
        if a[0] in ("umod",):
            if a[2][0] == "c": return 0, a[2][1] - 1
            return 0, INF
        if a[0] == "udiv":
            l, h = self.interval(a[1])
            if l >= 0 and a[2][0] == "c" and a[2][1] > 0:
                return int(l) // a[2][1], (h if h == INF else int(h) // a[2][1])
            return 0, INF
        if a[0] == "band":
            for x in a[1:]:
                if x[0] == "c" and x[1] >= 0: return 0, x[1]
        if a[0] in ("bit", "b2i"): return 0, 1
        if a[0] == "int" and isinstance(a[1].fp, tuple) and a[1].fp[0] == "p" and a[1].fp[1][0] == "F" and a[1].fp[1][1][0] == "c": return 0, a[1].fp[1][1][1] - 1
        if a[0] == "import" or a[0] == "int" or a[0] == "mod": return 0, INF
        return -INF, INF

    def split2(self, t, n):
        """(t div n, t mod n) of a nonnegative sum whose low part cannot carry; None when not exact"""
        c, d = lin_parts(t)
        if c < 0 or any(k < 0 for k in d.values()): return None
        hi, lo = {}, {}; mx = c % n
        for a, k in d.items():
            if a[0] in ("p", "undef", "fn"): return None
            l, h = self.interval(a)
            if l < 0: return None
            if k % n == 0: hi[a] = k // n
            elif h == INF: return None
            else: lo[a] = k; mx += k * h
            if mx >= n: return None
        return mk_lin(c // n, hi), mk_lin(c % n, lo)

    def cmp0(self, pred, t):
        """truth of (t pred 0) or None"""
        k, sg, c = self.key(t)
        if k is None:
            return {"eq": c == 0, "ne": c != 0, "slt": c < 0, "sle": c <= 0, "sgt": c > 0, "sge": c >= 0}[pred]
        lo, hi = self.interval(t)
        ex = self.rof(k)[2]
        zero_ex = ((-c) * sg) in ex
        if pred == "eq":
            if lo > 0 or hi < 0 or zero_ex: return False
            if lo == hi == 0: return True
        elif pred == "ne":
            r = self.cmp0("eq", t); return None if r is None else not r
        elif pred == "slt":
            if hi < 0 or (hi == 0 and zero_ex): return True
            if lo >= 0: return False
        elif pred == "sle":
            if hi <= 0: return True
            if lo > 0 or (lo == 0 and zero_ex): return False
        elif pred == "sgt":
            r = self.cmp0("sle", t); return None if r is None else not r
        elif pred == "sge":
            r = self.cmp0("slt", t); return None if r is None else not r
        return None

    def assume0(self, pred, t):
        """add fact (t pred 0). False if contradictory"""
        r = self.cmp0(pred, t)
        if r is not None: return r
        k, sg, c = self.key(t)
        lo, hi, ex = self.rof(k)
        b = self.base_interval(k)
        lo = max(lo, b[0]); hi = min(hi, b[1])
        # sg*k + c pred 0
        if pred == "eq": lo = hi = (-c) * sg
        elif pred == "ne":
            v = (-c) * sg; ex = ex | {v}
        else:
            # bound on sg*k
            if pred in ("slt", "sle"):
                ub = -c - (1 if pred == "slt" else 0)       # sg*k <= ub
                if sg > 0: hi = min(hi, ub)
                else: lo = max(lo, -ub)
            else:
                lb = -c + (1 if pred == "sgt" else 0)
                if sg > 0: lo = max(lo, lb)
                else: hi = min(hi, -lb)
        while lo in ex: lo += 1
        while hi in ex: hi -= 1
        if lo > hi: return False
        self.rng[k] = (lo, hi, ex)
        return True


DEF = (-INF, INF, frozenset())
DOMS = ("fe", "z", "pt", "d")

NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


class Exit:
    __slots__ = ("kind", "ret", "st", "inst")

    def __init__(self, kind, ret, st, inst): self.kind, self.ret, self.st, self.inst = kind, ret, st, inst


class Interp:
    MAXSTATES = 600

    pre_load = None; unroll_counted = False
    unroll_pointers = False      # a pointer to a known place counts as a constant in the unrolling of loops
    on_branch = on_fork = on_address = on_fixpoint = None     # observers: undecided branch, library call with several outcomes, computed address
    widenings = 0                # loop approximations made so far
    def __init__(self, prog, models, prefix_models=()):
        self.p = prog; self.models = models; self.aborts = []; self.events = []
        self.frame = itertools.count(1); self.unknown = {}; self.steps = 0; self.analysed = {}
        self.maxsteps = 400000; self.ring = None; self.globals_init = {}
        self.visited = set(); self.calls = 0; self.unroll = 0; self.keep_dead_facts = False
        self.stack = []
        self.track_events = True; self.mux_bits = False; self.mux_access = []
        self.keep_facts = False; self.pred_truth = None; self.parity_of = None
        self.on_load = None; self.on_store = None; self.dead_rounds = set(); self.round_ids = itertools.count(1)

    # ---------------------------------------------------------------- events
    def event(self, kind, inst, msg, st=None, **kw):
        f, l = self.p.loc(inst) if inst is not None else ("?", 0)
        e = {"kind": kind, "file": rel(f), "line": l, "func": inst.fn.name if inst is not None else "?", "msg": msg}
        e.update(kw)
        e["trail"] = [x for x in (st.trail if st else ())][-12:]
        e["stack"] = list(self.stack)
        e["rounds"] = st.rounds if st is not None else frozenset()
        self.events.append(e)

    def live_events(self):
        """events not raised by a superseded loop approximation"""
        return [e for e in self.events if not (e["rounds"] & self.dead_rounds)]

    # ---------------------------------------------------------------- constants
    def gptr(self, fn, name):
        m = fn.module
        f = self.p.lookup(m, name)
        if f is not None or name in m.decls and name not in m.globals: return ("fn", name)
        if name in m.globals:
            g = m.globals[name]
            internal = "internal" in g["link"] or "private" in g["link"]
            return ("p", ("G", m.path if internal else "", name), ZERO)
        return ("fn", name)

    def const(self, fn, ty, v, env=None, st=None):
        k = v[0]
        if k == "c": return C(v[1])
        if k == "r": 
            x = env.get(v[1])
            if x is None: raise AnalysisBroken(f"undefined register %{v[1]} in {fn.name}")
            return x
        if k == "null": return ZERO
        if k == "g": return self.gptr(fn, v[1])
        if k == "undef": return ("undef",)
        if k == "zero": return ZERO
        if k == "f": return ("f", v[1])
        if k == "ce":
            I = v[1]
            if I.op == "getelementptr": return self.gep(fn, I, env, st)
            if I.op == "cast": return self.const(fn, I.args[0][0], I.args[0][1], env, st)
            if I.op == "bin":
                a = self.const(fn, I.args[0][0], I.args[0][1], env, st); b = self.const(fn, I.args[1][0], I.args[1][1], env, st)
                return self.binop(I.x["bop"], I.ty, a, b, st)
        if k in ("md", "mdv"): return ("md",)
        if k == "asm": return ("fn", "<asm>")
        raise AnalysisBroken("const " + repr(v)[:80])

    def gep(self, fn, I, env, st):
        m = fn.module; L = m.layout
        base = self.const(fn, I.args[0][0], I.args[0][1], env, st)
        t = I.x["sty"]; off = ZERO
        for j, (it, iv) in enumerate(I.args[1:]):
            ix = self.const(fn, it, iv, env, st)
            if j == 0: off = add(off, mulc(num(ix), L.size(t))); continue
            tt = m.types[t.name] if t.k == "named" else t
            if tt.k == "struct":
                if ix[0] != "c": return ("op", "gep?")
                o, t = L.field_off(tt, ix[1]); off = add(off, C(o))
            elif tt.k in ("arr", "vec"):
                t = tt.sub; off = add(off, mulc(num(ix), L.size(t)))
            else: raise AnalysisBroken("gep type " + repr(tt))
        if self.on_address is not None: self.on_address(I, add(base[2], off) if base[0] == "p" else off, st)
        if base[0] == "p": return ("p", base[1], add(base[2], off))
        if base == ZERO: return off if off == ZERO else ("p", ("NULL",), off)
        if base[0] == "s" or base[0] == "op":
            return ("p", ("L", base), off)
        return ("p", ("L", base), off)

    # ---------------------------------------------------------------- arithmetic
    def binop(self, op, ty, a, b, st):
        if a[0] == "undef" or b[0] == "undef": return ("undef",)
        if a[0] in ("cmp", "ncmp", "not"): a = b2i(a, ty)
        if b[0] in ("cmp", "ncmp", "not"): b = b2i(b, ty)
        if ty.k == "i" and ty.n == 1 and op in ("xor", "and", "or"):
            if op == "xor" and b == ONE: return notb(a)
            if op == "xor" and a == ONE: return notb(b)
        if op == "add": return add(a, b)
        if op == "sub": return sub(a, b)
        if op == "mul": return mul(a, b)
        if op == "shl":
            if b[0] == "c": return mulc(a, 1 << b[1])
            if a[0] == "c": return mk_lin(0, {("pow2", b): a[1]})
            return ("op", "shl", a, b)
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            w = ty.n if ty.k == "i" else 64
            ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
            try:
                return C({"lshr": lambda: ux >> uy, "ashr": lambda: x >> y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                          "udiv": lambda: ux // uy, "sdiv": lambda: int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1),
                          "urem": lambda: ux % uy, "srem": lambda: (abs(x) % abs(y)) * (1 if x >= 0 else -1)}[op]())
            except ZeroDivisionError:
                return ("op", op, a, b)
        if op in ("lshr", "ashr") and b[0] == "c": return self.mkdiv(a, 1 << b[1], st)
        if op in ("udiv", "sdiv") and b[0] == "c" and b[1] > 0: return self.mkdiv(a, b[1], st)
        if op in ("udiv", "sdiv"):
            return ("udiv", a, b)
        if op in ("urem", "srem"):
            r = st.split2(a, b[1]) if b[0] == "c" and b[1] > 0 and st is not None else None
            return r[1] if r else ("umod", a, b)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if x[0] == "c":
                    n = x[1]
                    if y[0] == "ctype" and n == 0x1000: return ("b2i", ("xdigit", y[1]))
                    if y[0] == "umod" and y[2][0] == "c" and n > 0 and (n & (n + 1)) == 0 and y[2][1] % (n + 1) == 0: y = y[1]
                    if n == 1 and y[0] == "int" and self.parity_of:
                        r = self.parity_of(self, y, st)
                        if r is not None: return r
                    if n == 0: return ZERO
                    if n > 0 and (n & (n + 1)) == 0:
                        if y[0] == "umod" and y[2] == C(n + 1): return y
                        r = st.split2(y, n + 1) if st is not None else None
                        return r[1] if r else ("umod", y, C(n + 1))
                if x[0] == "b2i" and x[1][0] == "cmp" and x[1][1:2] == ("ne",) and y[0] == "umod" and y[1] == x[1][2] and y[2][0] == "c" and y[2][1] % 2 == 0:
                    r = self.parity_of(self, y[1], st) if self.parity_of and y[1][0] == "int" else None
                    return r or ("umod", y[1], C(2))      # mpz_odd_p
            if a == b: return a
            return ("band",) + tuple(sorted((a, b), key=repr))
        if op == "or":
            if a == ZERO: return b
            if b == ZERO: return a
            if a == b: return a
            return ("bor",) + tuple(sorted((a, b), key=repr))
        if op == "xor":
            if a == b: return ZERO
            return ("bxor",) + tuple(sorted((a, b), key=repr))
        return ("op", op, a, b)

    def mkdiv(self, a, n, st):
        if n == 1: return a
        # exact division of a linear form
        c, d = lin_parts(a)
        if c % n == 0 and all(v % n == 0 for v in d.values()):
            return mk_lin(c // n, {k: v // n for k, v in d.items()})
        r = st.split2(a, n) if st is not None else None
        return r[0] if r else ("udiv", a, C(n))

    def icmp(self, pred, a, b, st, ty=None):
        if a[0] == "undef" or b[0] == "undef": return ("undef",)
        if a[0] in ("cmp", "ncmp", "not"): a = b2i(a)
        if b[0] in ("cmp", "ncmp", "not"): b = b2i(b)
        for x, y in ((a, b), (b, a)):       # (b2i(c) ==/!= 0)
            if x[0] == "b2i" and y == ZERO and pred in ("eq", "ne", "ugt", "sgt"):
                if pred in ("ne",) or (pred in ("ugt", "sgt") and x is a): return x[1]
                if pred == "eq": return notb(x[1])
            if x[0] == "b2i" and y == ONE and pred in ("eq", "ne"):
                return x[1] if pred == "eq" else notb(x[1])
        if a[0] == "b2i" and b in (ZERO, ONE):
            q = pred[1:]
            if b == ZERO and q == "le" or b == ONE and q == "lt": return notb(a[1])
            if b == ZERO and q == "gt" or b == ONE and q == "ge": return a[1]
        # pointers
        if a[0] in ("p", "fn") or b[0] in ("p", "fn"):
            if pred in ("eq", "ne"):
                r = self.ptreq(a, b, st)
                if isinstance(r, bool): return C(int(r == (pred == "eq")))
                return r if pred == "eq" else notb(r)
            if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                return self.icmp(pred.replace("u", "s") if pred[0] == "u" else pred, a[2], b[2], st)
            return ("cmp", "rel", pred, a, b)
        # unsigned against negative/huge constants
        if pred[0] == "u":
            w = ty.n if ty is not None and ty.k == "i" else 64
            if is_c(a) and a[1] < 0: a = C(a[1] & ((1 << w) - 1))
            if is_c(b) and b[1] < 0: b = C(b[1] & ((1 << w) - 1))
            pred = "s" + pred[1:]
            la, _ = st.interval(a) if st else (0, 0); lb, _ = st.interval(b) if st else (0, 0)
        d = sub(num(a), num(b))
        d, pred = unsgn(d, pred)
        r = self.truth(("cmp", pred, d), st) if st else None
        if r is not None: return C(int(r))
        return ("cmp", pred, d)

    def ptreq(self, a, b, st):
        """bool or a boolean term"""
        if a == b: return True
        if a[0] == "fn" or b[0] == "fn":
            o = b if a[0] == "fn" else a
            if o == ZERO or o[0] == "fn": return False
            if o[0] == "p": return False if o[1][0] != "L" else ("cmp", "peq", a, b)
            return ("cmp", "peq", a, b)
        for x, y in ((a, b), (b, a)):
            if x[0] == "p" and y == ZERO:
                oid = x[1]
                if st.bools.get(("null", oid)) is not None: return st.bools[("null", oid)]
                o = st.heap.get(oid)
                if oid[0] in ("A", "G", "I", "F"): return False
                if o is not None and o.meta.get("nonnull"): return False
                return ("null", oid)
        if a[0] == "p" and b[0] == "p":
            if a[1] == b[1]:
                d = off_delta(a[2], b[2])
                if d is not None: return d == 0
                return ("cmp", "eq", sub(a[2], b[2]))
            na, nb = self.nullable(a, st), self.nullable(b, st)
            if a[1][0] == "F" and b[1][0] == "F":     # field descriptors: canonical per modulus
                return ("cmp", "eq", sub(a[1][1], b[1][1])) if st.cmp0("eq", sub(a[1][1], b[1][1])) is None else bool(st.cmp0("eq", sub(a[1][1], b[1][1])))
            if a[1][0] == "L" or b[1][0] == "L":
                k = ("cmp", "peq") + tuple(sorted((a, b), key=repr))
                if k in st.bools: return st.bools[k]
                return k
            return False
        k = ("cmp", "peq") + tuple(sorted((a, b), key=repr))
        if k in st.bools: return st.bools[k]
        return k

    def nullable(self, a, st): return a[1][0] == "L"

    def truth(self, c, st):
        if c[0] == "c": return bool(c[1] & 1)
        if c[0] == "cmp" and c[1] in NEG and len(c) == 3:
            r = st.cmp0(c[1], c[2])
            if r is None and c[2][0] == "int":
                f = c[2][1]
                z = self.fe_zero(f, st)
                if z is not None: return {"eq": z, "ne": not z, "sgt": not z, "sle": z, "sge": True, "slt": False}[c[1]]
            return r
        if c[0] == "not":
            r = self.truth(c[1], st); return None if r is None else not r
        if c[0] == "b2i": return self.truth(c[1], st)
        if c[0] == "null":
            return st.bools.get(c)
        if c[0] == "xdigit" and self.pred_truth: return self.pred_truth(st, c[1])
        return st.bools.get(c)

    def fe_zero(self, f, st):
        z = st.ghost.get("zr", frozenset()); nz = st.ghost.get("nz", frozenset())
        if f.n.is_zero() or f.n in z or -f.n in z: return True
        if f.n.is_const() or f.n in nz or -f.n in nz: return False
        if self.vals is not None and self.generic: return self.vals.zero(f.n)
        return None

    def assume(self, c, val, st):
        """add branch fact; False when contradictory"""
        if c[0] == "c": return bool(c[1] & 1) == val
        if c[0] == "not": return self.assume(c[1], not val, st)
        if c[0] == "b2i": return self.assume(c[1], val, st)
        if c[0] == "undef": return True
        if c[0] == "cmp" and c[1] in NEG and len(c) == 3:
            pr = c[1] if val else NEG[c[1]]
            if not st.assume0(pr, c[2]): return False
            if c[2][0] == "int":
                f = c[2][1]; z = self.fe_zero(f, st)
                if pr in ("eq", "sle"):
                    if z is False: return False
                    st.ghost["zr"] = st.ghost.get("zr", frozenset()) | {f.n}
                elif pr in ("ne", "sgt"):
                    if z is True: return False
                    st.ghost["nz"] = st.ghost.get("nz", frozenset()) | {f.n}
            return True
        if c[0] == "bandb":
            if val: return self.assume(c[1], True, st) and self.assume(c[2], True, st)
        if c in st.bools: return st.bools[c] == val
        st.bools[c] = val
        return True

    # ---------------------------------------------------------------- memory
    def load(self, I, p, ty, st):
        fn = I.fn; size = fn.module.layout.size(ty)
        if p[0] != "p":
            if p[0] in ("s", "op") or True:
                p = ("p", ("L", p), ZERO)
        oid, off = p[1], p[2]
        if oid[0] == "G": self.init_global(oid, fn, st)
        o = st.r(oid)
        if o.freed: self.event("use-after-free", I, f"read of freed object {o.name}", st)
        if self.on_load:
            r = self.on_load(self, I, p, ty, st)
            if r is not None: return r
        c = o.cells.get(off)
        if c is not None:
            if c[0] == size: return c[1]
        if st.zero_at(oid, off, size): return ZERO
        if self.mux_bits and (off[0] in ("lin", "bit", "b2i")):
            r = self.mux_load(I, oid, off, size, st)
            if r is not None: return r
        # header fields of domain values
        if ty.k == "i" and ty.n == 32:
            zo = add(off, C(-4))
            if ("z", zo) in o.cells: return ("zsize", o.cells[("z", zo)][1])
            gi = self.gepinfo(I)
            if gi and gi[0].endswith("__mpz_struct") and gi[1] == 1:
                z = self.zread(st, oid, zo, I)
                return ("zsize", z)
        if oid == ("NULL",):
            self.event("null-deref", I, "dereference of a null pointer", st)
        v = self.unknown_value(I, oid, off, ty, st)
        if c is None:
            o = st.w(oid); o.cells[off] = (size, v)
        return v

    def mux_load(self, I, oid, off, size, st):
        """load at an address selected by a few bits: selection between the cells"""
        c, d = lin_parts(off)
        if not d or any(a[0] != "bit" and a[0] != "b2i" for a in d) or len(d) > 9: return None
        o = st.r(oid); items = sorted(d.items(), key=lambda x: repr(x[0]))
        def build(i, k):
            if i == len(items):
                x = o.cells.get(C(k))
                if x is None or x[0] != size: return ZERO if st.zero_at(oid, C(k), size) else None
                return x[1]
            v0, v1 = build(i + 1, k), build(i + 1, k + items[i][1])
            if v0 is None or v1 is None: return None
            return v0 if v0 == v1 else ("mux", items[i][0], v1, v0)
        self.mux_access.append((I, tuple(a for a, _ in items)))
        return build(0, c)

    def mux_store(self, I, oid, off, size, v, st):
        c, d = lin_parts(off)
        if not d or any(a[0] != "bit" and a[0] != "b2i" for a in d) or len(d) > 3: return False
        o = st.r(oid); items = sorted(d.items(), key=lambda x: repr(x[0])); new = {}
        def build(i, k, conds):
            if i == len(items):
                x = o.cells.get(C(k)); old = x[1] if x and x[0] == size else (ZERO if st.zero_at(oid, C(k), size) else ("uninit", oid, C(k)))
                r = v
                for a, b in conds: r = ("mux", a, r, old) if b else ("mux", a, old, r)
                new[C(k)] = r; return
            build(i + 1, k, conds + [(items[i][0], 0)]); build(i + 1, k + items[i][1], conds + [(items[i][0], 1)])
        build(0, c, [])
        self.mux_access.append((I, tuple(a for a, _ in items)))
        for k, r in new.items(): st.put(oid, k, size, r)
        return True

    def gepinfo(self, I):
        """(struct type name, field index) of the address of a load/store, when it is a direct GEP"""
        a = I.args[-1][1]
        if a[0] != "r": return None
        d = self.defs(I.fn).get(a[1])
        if d is None or d.op != "getelementptr" or len(d.args) < 3: return None
        t = d.x["sty"]
        if t.k == "named" and d.args[2][1][0] == "c" and len(d.args) == 3: return (t.name, d.args[2][1][1])
        return None

    _defs = {}

    def defs(self, fn):
        k = id(fn)
        if k not in self._defs:
            self._defs[k] = (fn, {i.res: i for i in fn.insts() if i.res})
        return self._defs[k][1]

    def unknown_value(self, I, oid, off, ty, st):
        o = st.r(oid)
        if o.kind == "alloca" or (o.kind == "malloc"):
            base = ("uninit", oid, off)
        else: base = ("s", ("mem", oid, off), o.meta.get("ver", 0), o.name)
        if ty.k == "ptr": return ("p", ("L", base), ZERO)
        if base[0] == "uninit" and off[0] == "c": return base
        return base

    def zread(self, st, oid, off, I=None):
        o = st.r(oid)
        c = o.cells.get(("z", off))
        if c: return c[1]
        c = o.cells.get(("fe", off))
        if c: return ("int", c[1])
        ver = o.meta.get("ver", 0)
        v = ("s", ("z", oid, off), ver, o.name)
        o = st.w(oid); o.cells[("z", off)] = (16, v)
        return v

    def store(self, I, p, v, ty, st):
        fn = I.fn; size = fn.module.layout.size(ty)
        if p[0] != "p": p = ("p", ("L", p), ZERO)
        oid, off = p[1], p[2]
        if oid[0] == "G": self.init_global(oid, fn, st)
        o = st.r(oid)
        if o.freed: self.event("use-after-free", I, f"write to freed object {o.name}", st)
        if oid == ("NULL",): self.event("null-deref", I, "store through a null pointer", st)
        if self.on_store and self.on_store(self, I, p, v, ty, st): return
        if self.mux_bits and (off[0] in ("lin", "bit", "b2i")) and self.mux_store(I, oid, off, size, v, st): return
        st.put(oid, off, size, v)

    def init_global(self, oid, fn, st):
        if oid in st.heap: return
        name = oid[2]
        mod = None
        if oid[1]:
            mod = self.p.mods[oid[1]]
        else:
            for m in self.p.mods.values():
                g = m.globals.get(name)
                if g and g["init"] is not None: mod = m
            if mod is None:
                st.heap[oid] = Obj("global", None, name); return
        g = mod.globals[name]
        o = Obj("global", mod.layout.size(g["ty"]), name)
        if g["init"] is not None and (g["const"] or self.globals_init.get(name, False) or self.globals_init.get("*", True)):
            self.fill(o, mod, g["ty"], g["init"], 0)
        st.heap[oid] = o

    def fill(self, o, mod, ty, v, off):
        L = mod.layout
        if v is None or v[0] == "undef": return
        if v[0] == "zero":
            o.zero = o.zero + ((C(off), L.size(ty)),); return
        if v[0] == "str":
            o.meta["str"] = v[1] if off == 0 else o.meta.get("str")
            for i, ch in enumerate(v[1]): o.cells[C(off + i)] = (1, C(ch if ch < 128 else ch - 256))
            return
        if v[0] == "agg":
            tt = mod.types[ty.name] if ty.k == "named" else ty
            for i, (et, ev) in enumerate(v[1]):
                if tt.k == "struct": fo, _ = L.field_off(tt, i)
                else: fo = i * L.size(tt.sub)
                self.fill(o, mod, et, ev, off + fo)
            return

        class _F: pass
        f = _F(); f.module = mod; f.name = "<global>"
        o.cells[C(off)] = (L.size(ty), self.const(f, ty, v))

    def cstring(self, p, st):
        """bytes of a constant C string, or None"""
        if p[0] != "p" or p[1][0] != "G" or p[2][0] != "c": return None
        if p[1] not in st.heap:
            class _F: pass
            self.init_global(p[1], _F, st)
        s = st.heap[p[1]].meta.get("str")
        if s is None: return None
        s = s[p[2][1]:]
        return s.split(b"\0")[0]

    def memcopy(self, I, d, s, n, st):
        if d[0] != "p" or s[0] != "p": return
        n = n[1] if n[0] == "c" else None
        so = st.r(s[1]); newc = {}
        for key, (sz, v) in so.cells.items():
            ko = key[1] if key[0] in DOMS else key
            dd = off_delta(ko, s[2])
            if dd is None or dd < 0 or (n is not None and dd + sz > n): continue
            no = add(d[2], C(dd))
            newc[(key[0], no) if key[0] in DOMS else no] = (sz, v)
        zs = []
        for zo, zsz in so.zero:
            dd = off_delta(zo, s[2])
            if dd is None: continue
            lo = max(dd, 0); hi = dd + zsz if n is None else min(dd + zsz, n)
            if hi > lo: zs.append((add(d[2], C(lo)), hi - lo))
        o = st.w(d[1]); st.kill(o, d[2], n); o.cells.update(newc); o.zero = o.zero + tuple(zs)
        if so.meta.get("str") and s[2] == ZERO and d[2] == ZERO: o.meta["str"] = so.meta["str"]

    # ---------------------------------------------------------------- control
    def cfg(self, fn):
        if not hasattr(fn, "_rpo"):
            order = []; seen = set()
            stack = [(fn.order[0], iter(fn.blocks[fn.order[0]].succs))]; seen.add(fn.order[0])
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); stack.append((s, iter(fn.blocks[s].succs))); break
                else:
                    order.append(b); stack.pop()
            order.reverse()
            fn._rpo = {b: i for i, b in enumerate(order)}
            # dominators-free natural loop detection: back edge b->h when h on DFS path; use rpo + reachability
            fn._back = set()
            for b in order:
                for s in fn.blocks[b].succs:
                    if fn._rpo[s] <= fn._rpo[b]: fn._back.add((b, s))
            # loop bodies
            fn._loops = {}
            for b, h in fn._back:
                body = fn._loops.setdefault(h, {h}); wl = [b]
                while wl:
                    x = wl.pop()
                    if x in body or x not in fn._rpo: continue
                    body.add(x); wl.extend(fn.blocks[x].preds)
            # liveness of registers
            use = {}; df = {}
            for b in order:
                u = set(); d = set()
                for i in fn.blocks[b].insts:
                    if i.op == "phi": d.add(i.res); continue
                    for t, v in i.args: collect(v, u, d)
                    if i.op == "call": collect(i.x["callee"], u, d)
                    if i.res: d.add(i.res)
                use[b] = u; df[b] = d
            live = {b: set(use[b]) for b in order}
            ch = True
            while ch:
                ch = False
                for b in reversed(order):
                    out = set()
                    for s in fn.blocks[b].succs:
                        out |= live[s] - set()
                        for i in fn.blocks[s].insts:
                            if i.op != "phi": break
                            for pb, v in i.x["inc"]:
                                if pb == b and v[0] == "r": out.add(v[1])
                    n = use[b] | (out - df[b])
                    if n != live[b]: live[b] = n; ch = True
            fn._live = live
        return fn

    def call(self, fn, args, st):
        """-> list of Exit('ret', value, state)"""
        self.cfg(fn)
        if len(self.stack) > 40: raise AnalysisBroken("recursion too deep at " + fn.name)
        self.stack.append(fn.name)
        try:
            return self._call(fn, args, st)
        finally:
            self.stack.pop()

    def _call(self, fn, args, st):
        fid = next(self.frame)
        self.analysed[fn.name] = self.analysed.get(fn.name, 0) + 1
        env = {}
        for (t, r), a in zip(fn.params, args): env[r] = a
        exits = []
        wl = []; cnt = itertools.count()
        joinbuf = {}

        rpo = fn._rpo

        def push(b, prev, env, st, loops):
            heapq.heappush(wl, (rpo[b], next(cnt), b, prev, env, st, loops))

        push(fn.order[0], None, env, st, {})
        while wl:
            # gather all entries for the same block (lowest rpo) and merge
            r0 = wl[0][0]; batch = []
            while wl and wl[0][0] == r0: batch.append(heapq.heappop(wl)[2:])
            b = batch[0][0]
            items = []
            for (_, prev, env, st, loops) in batch:
                if st.rounds & self.dead_rounds: continue
                it = self.enter(fn, b, prev, env, st, loops, fid)
                if it is not None: items.append(it)
            items = self.merge(items)
            if len(items) > self.MAXSTATES:
                items = self.force_join(fn, b, items)
            for (env, st, loops) in items:
                if st.rounds & self.dead_rounds: continue
                self.steps += 1
                if self.steps > self.maxsteps: raise AnalysisBroken("analysis budget exceeded in " + fn.name)
                self.visited.add((fn.name, b))
                self.block(fn, b, env, st, loops, push, exits, fid)
        # drop frame objects
        out = []
        for e in exits:
            if e.st.rounds & self.dead_rounds: continue
            dead = [k for k in e.st.heap if k[0] == "A" and k[1] == fid]
            self.on_return(fn, e, dead)
            for k in dead: del e.st.heap[k]
            out.append(e)
        return self.merge_exits(out)

    def on_return(self, fn, e, dead):
        pass

    def merge_exits(self, exits):
        res = []
        for e in exits:
            for r in res:
                if r.ret == e.ret and self.same_state(r.st, e.st):
                    self.meet_facts(r.st, e.st); break
            else: res.append(e)
        return res

    def same_state(self, a, b):
        if a.ghost != b.ghost or a.rounds != b.rounds: return False
        if self.keep_facts and (a.rng != b.rng or a.bools != b.bools): return False
        if a.heap.keys() != b.heap.keys(): return False
        for k, o in a.heap.items():
            if not o.same(b.heap[k]): return False
        return True

    def meet_facts(self, a, b):
        r = {}
        for k, v in a.rng.items():
            w = b.rng.get(k)
            if w is not None:
                x = (min(v[0], w[0]), max(v[1], w[1]), v[2] & w[2])
                if x != DEF: r[k] = x
        a.rng = r
        a.bools = {k: v for k, v in a.bools.items() if b.bools.get(k) == v}
        n = 0
        while n < len(a.trail) and n < len(b.trail) and a.trail[n] == b.trail[n]: n += 1
        a.trail = a.trail[:n]
        for k, v in b.cnt.items():
            if a.cnt.get(k, 0) < v: a.cnt[k] = v

    def merge(self, items):
        if len(items) <= 1: return items
        res = []
        for it in items:
            env, st, loops = it
            for r in res:
                if r[0] == env and r[2] == loops and self.same_state(r[1], st):
                    self.meet_facts(r[1], st); break
            else: res.append(it)
        return res

    def force_join(self, fn, b, items):
        env, st, loops = items[0]; st = st.copy(); env = dict(env)
        for e2, s2, l2 in items[1:]:
            for k in list(env):
                if k not in e2 or e2[k] != env[k]: env[k] = ("s", ("join", fn.name, b, k), 0, "")
            for k in list(st.heap):
                if k not in s2.heap: continue
                o, p = st.heap[k], s2.heap[k]
                if o.same(p): continue
                o = st.w(k)
                for c in list(o.cells):
                    if p.cells.get(c) != o.cells[c]: del o.cells[c]
            self.meet_facts(st, s2)
        return [(env, st, loops)]

    def enter(self, fn, b, prev, env, st, loops, fid):
        """phis, loop widening, dead register pruning. Returns (env, st, loops) or None"""
        env2 = {}
        live = fn._live[b]
        for k in live:
            if k in env: env2[k] = env[k]
        phis = {}
        for i in fn.blocks[b].insts:
            if i.op != "phi": break
            for pb, v in i.x["inc"]:
                if pb == prev:
                    phis[i.res] = self.const(fn, i.ty, v, env, st); break
        env2.update(phis)
        # leave loops we are no longer inside
        nl = {h: s for h, s in loops.items() if b in fn._loops.get(h, ())}
        if b in fn._loops:
            isback = (prev, b) in fn._back
            if not isback:
                ek = ("lentry", fn.name, b); st.cnt[ek] = st.cnt.get(ek, 0) + 1
                nl[b] = ("first", dict(phis), st.copy(), frozenset(), frozenset(), 0)
            else:
                tag, p0, s0, wph, wcells, rnd = nl.get(b, ("first", dict(phis), st.copy(), frozenset(), frozenset(), 0))
                concrete = (all(v[0] == "c" or self.unroll_pointers and v[0] == "p" and v[2][0] == "c" for v in phis.values()) or (self.unroll_counted and any(v[0] == "c" and v != p0.get(k) for k, v in phis.items()))) \
                    and self.unroll > rnd and self.unroll_ok(fn, b, env2, st)
                if concrete:
                    nl[b] = (tag, p0, s0, wph, wcells, rnd + 1)
                    return (env2, st, nl)
                chp = set(); chc = set()
                for k, v in phis.items():
                    if v != p0.get(k): chp.add(k)
                for oid, o in st.heap.items():
                    o0 = s0.heap.get(oid)
                    if o0 is None:
                        continue
                    if o.same(o0): continue
                    if o.meta != o0.meta or o.freed != o0.freed or o.res != o0.res: chc.add((oid, "meta"))
                    for c in set(o.cells) | set(o0.cells):
                        if o.cells.get(c) != o0.cells.get(c):
                            if c in o0.cells or c in o.cells: chc.add((oid, c))
                    if o.zero != o0.zero: chc.add((oid, "zero"))
                # memoised lazy reads are not changes
                chc = {x for x in chc if not self.is_memo(x, st, s0)}
                for gk in set(st.ghost) | set(s0.ghost):
                    if st.ghost.get(gk) != s0.ghost.get(gk): chc.add(("ghost", gk))
                if isinstance(tag, int) and chp <= wph and chc <= wcells:
                    if self.on_fixpoint is not None: self.on_fixpoint(fn, b, p0, phis, s0, st, chc)
                    return None      # fixpoint reached
                if rnd > 12: raise AnalysisBroken(f"loop at {fn.name}:{b} does not stabilise")
                if isinstance(tag, int): self.dead_rounds.add(tag)
                self.widenings += 1
                rid = next(self.round_ids); rnd1 = s0.cnt.get(("lentry", fn.name, b), 0)
                wph2 = wph | chp; wcells2 = wcells | chc
                s1 = s0.copy(); ph = dict(p0); 
                for k in wph2:
                    ph[k] = self.widen_value(fn, b, k, p0.get(k), phis.get(k), rnd1, s1)
                for x in wcells2:
                    self.widen_cell(fn, b, x, st, s0, s1, rnd1)
                s1.rounds = s1.rounds | {rid}
                # newly allocated objects inside loop stay in heap of this iteration only
                env2.update(ph)
                st = s1
                st.cnt = dict(st.cnt)
                nl[b] = (rid, dict(ph), st.copy(), frozenset(wph2), frozenset(wcells2), rnd + 1)
                # values computed before the loop are in env already
                return (env2, st, nl)
        return (env2, st, nl)

    def unroll_ok(self, fn, b, env, st): return True

    def is_memo(self, x, st, s0):
        oid, c = x
        if c in ("meta", "zero"): return False
        o, o0 = st.heap.get(oid), s0.heap.get(oid)
        if o0 is None or c in o0.cells: return False
        v = o.cells[c][1]
        # first read of an unknown cell: value names the cell itself
        if isinstance(v, tuple) and len(v) > 1:
            if v[0] == "s" and v[1] in (("mem", oid, c), ("z", oid, c[1] if c and c[0] in DOMS else c)): return True
            if v[0] == "uninit" : return True
            if v[0] == "p" and v[1][0] == "L": return True
        from poly import FE
        if isinstance(v, FE) and c[0] == "fe":
            return self.fe_is_atom(v, oid, c[1])
        return False

    def fe_is_atom(self, v, oid, off):
        return len(v.n.d) == 1 and any(isinstance(x, tuple) and x[0] == "s" and x[1] == ("fe", oid, off) for x in v.n.vars())

    def widen_value(self, fn, b, k, v0, v1, rnd, st):
        v = ("s", ("w", fn.name, b, k, rnd), 0, k)
        ty = self.defs(fn)[k].ty
        if ty.k == "ptr":
            if v0 and v1 and v0[0] == "p" and v1[0] == "p" and v0[1] == v1[1]:
                return ("p", v0[1], add(v0[2], v))
            if v0 == ZERO or v1 == ZERO or v0 is None or v1 is None or v0[0] != "p" or v1[0] != "p" or v0[1][0] == "L" or v1[1][0] == "L":
                return ("p", ("L", v), ZERO)
            return ("p", ("L", v), ZERO)
        # simple monotone counters
        if v0 is not None and v1 is not None and v0[0] not in ("p", "undef", "fn") and v1[0] not in ("p", "undef", "fn"):
            d = sub(num(v1), num(v0))
            mono = self.monotone(fn, k)
            if mono and mono > 0:
                lo, _ = st.interval(num(v0))
                if lo != -INF: st.rng[v] = (lo, INF, frozenset())
                st.assume0("sge", sub(v, num(v0)))
            elif mono and mono < 0:
                _, hi = st.interval(num(v0))
                if hi != INF: st.rng[v] = (-INF, hi, frozenset())
                st.assume0("sle", sub(v, num(v0)))
        return v

    def monotone(self, fn, k):
        """+1/-1 when every in-loop update of phi k adds a constant of one sign"""
        D = self.defs(fn); ph = D[k]; sgn = set()
        for pb, v in ph.x["inc"]:
            if v[0] != "r": continue
            seen = set(); r = self._step(D, v[1], k, seen)
            if r is None: continue
            if r == "?": return None
            sgn.add(r)
        if len(sgn) == 1: return sgn.pop()
        return None

    def _step(self, D, r, k, seen):
        if r == k: return None
        if r in seen: return None
        seen.add(r)
        d = D.get(r)
        if d is None: return None
        if d.op == "bin" and d.x["bop"] in ("add", "sub") and d.args[0][1] == ("r", k) and d.args[1][1][0] == "c":
            c = d.args[1][1][1] * (1 if d.x["bop"] == "add" else -1)
            return 1 if c > 0 else -1
        if d.op == "phi":
            out = None
            for _, v in d.x["inc"]:
                if v[0] == "r":
                    q = self._step(D, v[1], k, seen)
                    if q is None: continue
                    if out is None: out = q
                    elif out != q: return "?"
            return out
        return None if not self._depends(D, r, k, set()) else "?"

    def _depends(self, D, r, k, seen):
        if r == k: return True
        if r in seen: return False
        seen.add(r); d = D.get(r)
        if d is None: return False
        return any(v[0] == "r" and self._depends(D, v[1], k, seen) for _, v in d.args)

    def widen_cell(self, fn, b, x, st, s0, s1, rnd):
        oid, c = x
        if oid == "ghost":
            self.widen_ghost(fn, b, c, st, s0, s1, rnd); return
        if oid not in s1.heap: return
        o = s1.w(oid)
        if c == "meta":
            o.meta = dict(st.heap[oid].meta); o.freed = st.heap[oid].freed; o.res = dict(st.heap[oid].res); return
        if c == "zero":
            o.zero = (); return
        sz = (st.heap[oid].cells.get(c) or s0.heap[oid].cells.get(c) or (8, None))
        v = self.widen_dom(fn, b, oid, c, st.heap[oid].cells.get(c), s0.heap[oid].cells.get(c), rnd, s1)
        if v is None:
            old = sz[1]
            if c and c[0] == "z": v = ("s", ("w", fn.name, b, (oid, c), rnd), 0, "")
            elif isinstance(old, tuple) and old and old[0] == "p" or sz[0] == 8 and isinstance(old, tuple) and old == ZERO and self.ptr_cell(st, s0, oid, c):
                v = ("p", ("L", ("s", ("w", fn.name, b, (oid, c), rnd), 0, "")), ZERO)
            else: v = ("s", ("w", fn.name, b, (oid, c), rnd), 0, "")
        o.cells[c] = (sz[0], v)

    def ptr_cell(self, st, s0, oid, c):
        for s in (st, s0):
            x = s.heap.get(oid)
            x = x and x.cells.get(c)
            if x and isinstance(x[1], tuple) and x[1][0] == "p": return True
        return False

    def widen_ghost(self, fn, b, k, st, s0, s1, rnd):
        x, y = st.ghost.get(k), s0.ghost.get(k)
        if isinstance(x, frozenset) or isinstance(y, frozenset):     # facts: what both know
            s1.ghost[k] = (x or frozenset()) & (y or frozenset()); return
        if isinstance(x, tuple) and isinstance(y, tuple) and k == "log":
            s1.ghost[k] = y; return
        s1.ghost[k] = ("s", ("wg", fn.name, b, k, rnd), 0, "")

    def widen_dom(self, fn, b, oid, c, new, old, rnd, s1):
        if c and c[0] == "fe":
            from poly import FE, Poly, ONEP
            ref = (new or old)[1]
            return FE(Poly.var(("s", ("w", fn.name, b, (oid, c), rnd), 0, "")), ONEP, ref.fp if isinstance(ref, FE) else None)
        return None

    def block(self, fn, b, env, st, loops, push, exits, fid):
        insts = fn.blocks[b].insts
        self.exec_from(fn, b, insts, 0, env, st, loops, push, exits, fid)

    def exec_from(self, fn, b, insts, i, env, st, loops, push, exits, fid):
        n = len(insts)
        while i < n:
            I = insts[i]; op = I.op
            if op == "phi": i += 1; continue
            if op == "call":
                cal = I.x["callee"]
                name = cal[1] if cal[0] == "g" else None
                if name and name.startswith("llvm.dbg"): i += 1; continue
                res = self.do_call(fn, I, env, st, fid)
                if len(res) == 0: return
                if len(res) == 1:
                    v, st = res[0]
                    if I.res: env[I.res] = v
                    i += 1; continue
                for v, s in res:
                    e2 = dict(env)
                    if I.res: e2[I.res] = v
                    self.exec_from(fn, b, insts, i + 1, e2, s, loops, push, exits, fid)
                return
            if op == "br":
                if len(I.x["dst"]) == 1:
                    push(I.x["dst"][0], b, env, st, loops); return
                c = self.const(fn, I.args[0][0], I.args[0][1], env, st)
                self.branch(fn, b, I, c, env, st, loops, push); return
            if op == "switch":
                c = self.const(fn, I.args[0][0], I.args[0][1], env, st)
                self.switch(fn, b, I, num(c), env, st, loops, push); return
            if op == "ret":
                v = self.const(fn, I.args[0][0], I.args[0][1], env, st) if I.args else None
                exits.append(Exit("ret", v, st, I)); return
            if op == "unreachable": return
            if op == "load" and self.pre_load is not None:
                p = self.const(fn, I.args[0][0], I.args[0][1], env, st); alts = self.pre_load(I, p, I.ty, st)
                if alts is not None:
                    if len(alts) != 1:
                        for s in alts: self.exec_from(fn, b, insts, i, dict(env), s, loops, push, exits, fid)
                        return
                    st = alts[0]
            env[I.res] = self.simple(fn, I, env, st, fid) if op != "store" else None
            if op == "store":
                env.pop(None, None)
                v = self.const(fn, I.args[0][0], I.args[0][1], env, st)
                p = self.const(fn, I.args[1][0], I.args[1][1], env, st)
                self.store(I, p, v, I.args[0][0], st)
            i += 1

    def note(self, fn, I, st, txt):
        f, l = self.p.loc(I)
        st.trail = st.trail + ((fn.name, l, txt),)

    def branch(self, fn, b, I, c, env, st, loops, push):
        t, f = I.x["dst"]
        if t == f:
            push(t, b, env, st, loops); return
        r = self.truth(c, st) if c[0] != "undef" else None
        if r is True: push(t, b, env, st, loops); return
        if r is False: push(f, b, env, st, loops); return
        if c[0] == "undef" or mentions_uninit(c): self.event("uninit-branch", I, "branch on an uninitialised value", st)
        if self.on_branch is not None: self.on_branch(I, c, st)
        s2 = st.copy(); e2 = dict(env)
        if self.assume(c, True, st):
            self.note(fn, I, st, "T"); self.after_assume(c, True, st); push(t, b, env, st, loops)
        if self.assume(c, False, s2):
            self.note(fn, I, s2, "F"); self.after_assume(c, False, s2); push(f, b, e2, s2, loops)

    def after_assume(self, c, val, st): pass

    def switch(self, fn, b, I, c, env, st, loops, push):
        if c[0] == "c":
            for v, d in I.x["cases"]:
                if v == c[1]: push(d, b, env, st, loops); return
            push(I.x["default"], b, env, st, loops); return
        if self.on_branch is not None: self.on_branch(I, c, st)
        rest = st.copy()
        for v, d in I.x["cases"]:
            s2 = st.copy()
            if s2.assume0("eq", sub(c, C(v))):
                self.note(fn, I, s2, f"case {v}"); push(d, b, dict(env), s2, loops)
        ok = True
        for v, d in I.x["cases"]:
            if not rest.assume0("ne", sub(c, C(v))): ok = False; break
        if ok:
            lo, hi = rest.interval(c)
            self.note(fn, I, rest, "default"); push(I.x["default"], b, dict(env), rest, loops)

    def simple(self, fn, I, env, st, fid):
        op = I.op
        g = lambda k: self.const(fn, I.args[k][0], I.args[k][1], env, st)
        if op == "load":
            return self.load(I, g(0), I.ty, st)
        if op == "store": return None
        if op == "getelementptr": return self.gep(fn, I, env, st)
        if op == "bin": return self.binop(I.x["bop"], I.ty, g(0), g(1), st)
        if op == "icmp": return self.icmp(I.x["pred"], g(0), g(1), st, I.args[0][0])
        if op == "cast":
            v = g(0); c = I.x["cast"]
            st_ = I.args[0][0]
            if v[0] == "undef": return v
            if c in ("zext", "sext") and st_.k == "i" and st_.n == 1:
                if v[0] == "c": return C(v[1] & 1) if c == "zext" else C(-(v[1] & 1))
                if v[0] == "cmp" and len(v) == 3 and v[1] in ("eq", "ne", "sgt") and v[2][0] == "bit":
                    r = sub(ONE, v[2]) if v[1] == "eq" else v[2]
                    return r if c == "zext" else mulc(r, -1)
                return b2i(v) if c == "zext" else mulc(b2i(v), -1)
            if c == "zext" and v[0] == "c" and v[1] < 0: return C(v[1] & ((1 << st_.n) - 1))
            if c == "trunc":
                if v[0] == "c":
                    w = I.ty.n; x = v[1] & ((1 << w) - 1)
                    if w > 1 and x >> (w - 1): x -= 1 << w
                    return C(x)
                if I.ty.n == 1: return self.icmp("ne", ("umod", num(v), C(2)), ZERO, st) if v[0] not in ("cmp", "not", "b2i") else v
                if I.ty.n == 8:
                    lo, hi = st.interval(num(v))
                    if not (lo >= 0 and hi <= 255): return ("trunc", 8, v)
            return v
        if op == "select":
            c = g(0); r = self.truth(c, st) if c[0] != "undef" else None
            if r is True: return g(1)
            if r is False: return g(2)
            a, b = g(1), g(2)
            if a == b: return a
            if I.ty.k == "i" and I.ty.n == 1:
                if b == ZERO: return ("bandb", c, a)
                if a == ONE: return ("borb", c, b)
            return ("sel", c, a, b)
        if op == "alloca":
            oid = ("A", fid, I.res, 0)
            sz = fn.module.layout.size(I.x["aty"])
            cnt = g(0)
            o = Obj("alloca", sz * cnt[1] if cnt[0] == "c" else None, f"{fn.name}.{I.res}"); o.meta["ty"] = repr(I.x["aty"])
            st.heap[oid] = o
            return ("p", oid, ZERO)
        if op == "other": return st.fresh((fn.name, I.blk, I.idx), "other")
        raise AnalysisBroken("op " + op)

    def do_call(self, fn, I, env, st, fid):
        cal = I.x["callee"]
        self.calls += 1
        args = [self.const(fn, t, v, env, st) if t.k != "metadata" else None for t, v in I.args]
        if cal[0] == "g": name = cal[1]
        else:
            v = self.const(fn, I.ty, cal, env, st)
            if v[0] == "fn": name = v[1]
            else: name = "<indirect>"
        m = self.models.get(name)
        if m is None and name.startswith("llvm."): m = self.models.get(name.split(".p0")[0].split(".i64")[0])
        if m is not None:
            r = m(self, I, args, st)
            if r is None: return [(None, st)]
            if isinstance(r, list):
                if self.on_fork is not None and len(r) > 1: self.on_fork(I, name, args, st)
                return r
            return [(r, st)]
        f = self.p.lookup(fn.module, name)
        if f is not None:
            return [(e.ret, e.st) for e in self.call(f, args, st)]
        self.unknown[name] = self.unknown.get(name, 0) + 1
        return self.unknown_call(name, I, args, st)

    def unknown_call(self, name, I, args, st):
        v = st.fresh((I.fn.name, I.blk, I.idx), name)
        if I.ty.k == "ptr": v = ("p", ("L", v), ZERO)
        return [(v, st)]


def unsgn(d, pred):
    """compare the quantity itself when comparing its sign (mpz_cmp result, mpz size field) with zero"""
    for _ in range(3):
        if d[0] in ("sgn", "zsize"): d = d[1]
        elif d[0] == "lin" and d[1] == 0 and len(d[2]) == 1 and d[2][0][0][0] in ("sgn", "zsize"):
            k = d[2][0][1]; d = d[2][0][0][1]
            if k < 0: d = mulc(d, -1)
        elif d[0] == "lin" and len(d[2]) == 1 and d[2][0][0][0] in ("sgn",) and abs(d[2][0][1]) == 1 and abs(d[1]) == 1:
            # sgn(t) >= 1, > -1, <= -1, < 1 ...
            k = d[2][0][1]; t = d[2][0][0][1]; c = d[1]
            if k == 1 and c == -1 and pred in ("sge", "slt"): d = t; pred = {"sge": "sgt", "slt": "sle"}[pred]
            elif k == 1 and c == 1 and pred in ("sgt", "sle"): d = t; pred = {"sgt": "sge", "sle": "slt"}[pred]
            else: break
        else: break
    return d, pred


def mentions_uninit(t):
    if isinstance(t, tuple):
        if t and t[0] == "uninit": return True
        return any(mentions_uninit(x) for x in t if isinstance(x, tuple))
    return False


def num(v):
    """view a value as an integer term"""
    if v[0] in ("cmp", "not", "bandb", "borb", "null"): return b2i(v)
    return v


def b2i(c, ty=None):
    if c[0] == "c": return c
    if c[0] == "b2i": return c
    return ("b2i", c)


def notb(c):
    if c[0] == "c": return C(1 - (c[1] & 1))
    if c[0] == "not": return c[1]
    if c[0] == "b2i": return notb(c[1])
    if c[0] == "cmp" and c[1] in NEG and len(c) == 3: return ("cmp", NEG[c[1]], c[2])
    return ("not", c)


def collect(v, u, d):
    if v[0] == "r":
        if v[1] not in d: u.add(v[1])
    elif v[0] == "ce":
        for t, x in v[1].args: collect(x, u, d)
    elif v[0] == "agg":
        for t, x in v[1]: collect(x, u, d)
