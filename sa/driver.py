"""Scenario driver: builds abstract inputs and applies library functions to them."""
import random
from terms import *
from poly import *
from llir import *
import absint, models
from absint import num
from absint import Interp, Obj, State
from models import M, F, Val, Valuations, Q, FE, fe_const, fadd, fmul, fpow, red, ferd


class Driver:
    def __init__(self, prog, extra=None, drop=(), layer="fe"):
        mods = dict(M)
        if layer == "fe": mods.update(F)
        if extra: mods.update(extra)
        for d in drop: mods.pop(d, None)
        self.it = models.setup(Interp(prog, mods)); self.p = prog
        self.st0 = State()

    def obj(self, st, name, size=None, kind="input"):
        oid = ("I", name); o = Obj(kind, size, name); o.meta["nonnull"] = True
        st.heap[oid] = o
        return ("p", oid, ZERO)

    def mpz(self, st, name, term=None):
        p = self.obj(st, name, 16)
        st.heap[p[1]].cells[("z", ZERO)] = (16, term if term is not None else ("s", name, 0, name))
        st.heap[p[1]].res[("z", ZERO)] = "live"
        return p

    def fn(self, name):
        f = self.p.funcs.get(name) or next((m.funcs[name] for m in self.p.mods.values() if name in m.funcs), None)
        if f is None: raise AnalysisBroken(f"function {name} not found in the analysed sources")
        return f

    def do(self, name, args, states):
        """states: list of State -> list of (ret, State)"""
        m = self.it.models.get(name); out = []
        f = self.p.funcs.get(name) or next(iter(self.p.funcs.values())) if m is not None else self.fn(name)
        for st in states:
            if m is not None:
                I = _FakeInst(f, name)
                st = st.copy(); r = m(self.it, I, args, st)
                out += r if isinstance(r, list) else [(r, st)]
            else:
                for e in self.it.call(f, args, st.copy()): out.append((e.ret, e.st))
        return out

    def dos(self, name, args, states): return [s for _, s in self.do(name, args, states)]


class _FakeInst:
    def __init__(self, fn, name):
        self.fn = fn; self.blk = "driver"; self.idx = 0; self.dbg = None; self.x = {"callee": ("g", name)}; self.op = "call"
        class T: k = "i"; n = 32
        self.ty = T; self.args = []; self.res = None


Interp.parse_may_fail = True


def sample_curve(kind, rnd, npts, torsion2=False):
    """random curve over GF(Q) of the given type with npts random affine points on it.
    returns coefficient dict and list of (x, y)"""
    inv = lambda a: pow(a, -1, Q)
    while True:
        if kind == "ws":
            if torsion2:
                a, e = rnd.randrange(1, Q), rnd.randrange(1, Q)
                b = -(pow(e, 3, Q) + a * e) % Q
                co = {"a": a, "b": b, "e": e}
            else:
                a, b = rnd.randrange(1, Q), rnd.randrange(1, Q); co = {"a": a, "b": b}
            f = lambda x: (x * x * x + a * x + b) % Q
        elif kind == "mo":
            A, B = rnd.randrange(3, Q), rnd.randrange(1, Q); co = {"A": A, "B": B}
            f = lambda x: (x * x * x + A * x * x + x) * inv(B) % Q
        elif kind == "ed":
            c, d = rnd.randrange(1, Q), rnd.randrange(2, Q); co = {"c": c, "d": d}
            f = lambda x: (c * c - x * x) * inv((1 - c * c * d * x * x) % Q) % Q
        else:
            a, d = rnd.randrange(2, Q), rnd.randrange(2, Q); co = {"a": a, "d": d}
            f = lambda x: (1 - a * x * x) * inv((1 - d * x * x) % Q) % Q
        pts = []
        while len(pts) < npts:
            x = rnd.randrange(2, Q)
            y2 = f(x)
            if pow(y2, (Q - 1) // 2, Q) != 1: continue
            y = pow(y2, (Q + 1) // 4, Q)
            if rnd.random() < .5: y = Q - y
            pts.append((x, y))
        return co, pts


SETTER = {"ws": ("mpECurve_set_mpz_ws", "a", "b"), "ed": ("mpECurve_set_mpz_ed", "c", "d"),
          "mo": ("mpECurve_set_mpz_mo", "B", "A"), "te": ("mpECurve_set_mpz_te", "a", "d")}
ENUM = {"ws": 2, "ed": 3, "mo": 4, "te": 5}
