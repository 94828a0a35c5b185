"""Lifetime rules laid over the scenarios of the other checks: what a frame, a call and an object still own."""
import absint, models, driver, report
from absint import Interp
from llir import rel, Violation, AnalysisBroken
from terms import *

KINDS = ("leak-local", "leak-malloc", "leak-free", "leak-reinit", "leak-output", "double-clear", "clear-uninit", "double-free", "free-uninit", "free-bad",
         "use-after-clear", "use-after-free", "uninit-read", "uninit-write", "uninit-branch", "null-deref")
MADE = []


def _inst(e, fn):
    return e.inst


def on_return(it, fn, e, dead):
    for k in dead:
        o = e.st.heap[k]
        for (kind, off), v in o.res.items():
            if v == "live":
                it.event("leak-local", e.inst, f"{models.kindname(kind)} {varname(it, fn, o)} still initialised when {fn.name} returns", e.st, obj=o.name)


def varname(it, fn, o):
    n = o.name.split(".%")[-1].split(".")[-1]
    return n


def mentions(v, out):
    """heap objects a value refers to"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "p" and isinstance(v[1], tuple): out.add(v[1])
        for x in v:
            if isinstance(x, (tuple, list)) or hasattr(x, "d"): mentions(x, out)
    elif isinstance(v, list):
        for x in v: mentions(x, out)
    return out


def reachable(st, ret):
    seen = set(); todo = [o for o in st.heap if o[0] != "M"] + list(mentions(ret, set()))
    while todo:
        k = todo.pop()
        if k in seen or k not in st.heap: continue
        seen.add(k)
        for c, (sz, v) in list(st.heap[k].cells.items()):
            for t in mentions(v, set()):
                if t not in seen: todo.append(t)
    return seen


_do = driver.Driver.do


def do(self, name, args, states):
    states = list(states)
    out = []
    for s in states:
        had = set(k for k in s.heap if k[0] == "M"); ok = reachable(s, None)
        for v, t in _do(self, name, args, [s]):
            r = reachable(t, v)
            for k, o in t.heap.items():
                if k[0] != "M" or o.freed or k in r: continue
                if k in had and k not in ok: continue
                site = o.meta.get("site", ("?", 0))
                self.it.event("leak-malloc", None, f"{'memory allocated in %s (line %s)' % site if site[1] else o.name} is neither released nor reachable after {name} returns", t, obj=o.name, site=site)
            out.append((v, t))
            closing(self, name, args, s, v, t)
    return out


CLEAR = (("mpECDSASignatureScheme_", "mpECDSASignatureScheme_clear"), ("mpECDSASignature_", "mpECDSASignature_clear"), ("mpECDSAHashfunc_", "mpECDSAHashfunc_clear"),
         ("mpECElgamal_init_decrypt", "mpECP_clear"), ("mpECElgamal", "mpECElgamal_clear"), ("mpECurve_point_check", None), ("mpECurve_", "mpECurve_clear"), ("mpECP_", "mpECP_clear"))
NESTED = [False]


def live(o): return set(k for k, v in o.res.items() if v == "live")


def closing(D, name, args, s, v, t):
    """the object a call worked on can be cleared exactly once afterwards, and nothing of it stays behind; a failed initialisation leaves nothing to clear"""
    if NESTED[0] or name.endswith("_clear") or not args or args[0][0] != "p" or args[0][1][0] != "I" or args[0][2] != ZERO: return
    oid = args[0][1]
    if oid not in s.heap or oid not in t.heap: return
    if "_init_" in name and v is not None:
        r = D.it.truth(D.it.icmp("ne", absint.num(v), ZERO, t), t)
        if r is True:
            new = live(t.heap[oid]) - live(s.heap[oid])
            if new: D.it.event("leak-output", None, f"{name} reports a failure but leaves {len(new)} initialised parts in the object it was to initialise", t)
            return
        if r is None: return
    c = next((c for p, c in CLEAR if name.startswith(p)), None)
    if c is None or c not in D.p.funcs or c in D.it.models or not live(t.heap[oid]): return
    NESTED[0] = True
    try:
        for w, u in D.do(c, [args[0]], [t.copy()]):
            left = live(u.heap[oid])
            if left: D.it.event("leak-output", None, f"{len(left)} parts of the object are still initialised when {c} returns after {name}", u)
    finally: NESTED[0] = False


_free = models.M["free"]


def free(it, I, a, st):
    if a[0] != ZERO and a[0][0] == "p" and a[0][1] in st.heap and not st.heap[a[0][1]].freed:
        o = st.heap[a[0][1]]
        for (kind, off), v in o.res.items():
            if v == "live" and o.kind == "malloc" and a[0][1][0] == "M":
                it.event("leak-free", I, f"memory from {o.name} released while the {models.kindname(kind)} in it is still initialised", st, obj=o.name)
    return _free(it, I, a, st)


def install():
    Interp.on_return = on_return
    driver.Driver.do = do
    models.M["free"] = free
    collect()


def collect():
    """remember every interpreter that is made"""
    init = Interp.__init__
    if not getattr(init, "wrapped", False):
        def made(self, *a, **k):
            init(self, *a, **k); MADE.append(self)
        made.wrapped = True
        Interp.__init__ = made


def findings(it, kinds=KINDS):
    return [e for e in it.live_events() if e["kind"] in kinds]


class Fake:
    """collects the obligations of another check"""

    def __init__(self, tier):
        self.tasks = []; self.tier = tier; self.units = set(); self.cover = {}; self.notes = []; self.assume = []; self.obs = {}

    def __getattr__(self, n): return lambda *a, **k: None


class Holder:
    def __init__(self, it): self.it = it
