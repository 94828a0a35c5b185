import importlib, os, sys
from scen import *
import lifetime
from report import OutOfTime

REUSE = ("p01_group_law", "p02_scalar_mult", "p03_coordinates", "p04_curve_definition", "p06_equality", "p07_point_import", "p08_point_export", "p09_ecdsa_sign",
         "p13_field_arithmetic", "p14_inverse_sqrt", "p15_field_registry", "p16_random_source", "p10_ecdsa_verify", "p11_signature_bytes", "p12_elgamal", "p21_inputs_unchanged", "p22_base_table")


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("over every scenario of the checks of the other library properties: when a function returns, none of its local big integers, field elements and points is still initialised")
    rep.rule("no initialisation of a live object, clear of an uninitialised or cleared one, use after clear or release, release of memory that holds live objects")
    rep.rule("when a call returns, memory allocated in it is released or reachable from its result, its arguments or a global")
    rep.rule("after a call succeeds its object is cleared by the matching clear function without residue; a failed initialisation leaves nothing initialised")
    rep.rule("the exit handlers release everything the field registry allocated")
    fns = {}
    lifetime.install()
    for m in REUSE if "P19_ONLY" not in os.environ else os.environ["P19_ONLY"].split(",") if os.environ["P19_ONLY"] else []:
        mod = importlib.import_module(m); fake = lifetime.Fake(tier)
        mod.run(fake, tier)
        for key, where, f, g, a in fake.tasks:
            obl(rep, f"{m[:3].upper()}:{key}", where, fns, reuse, g, a)
    import p15_field_registry as p15
    for k in (1, 3): obl(rep, f"exit:registry of {k}", prog.where(p15.LOOK), fns, atexit, prog, k)
    rep.cover["functions_interpreted"] = fns


def reuse(g, a):
    lifetime.MADE.clear(); D = None
    try: D, st, msg = g(*a)
    except (Violation, AnalysisBroken): pass
    bad = [e for it in lifetime.MADE for e in lifetime.findings(it)]
    D = D or (lifetime.Holder(lifetime.MADE[-1]) if lifetime.MADE else None)
    if bad:
        e = bad[0]
        return D, "bad", e["msg"] + (f" ({e['file']}:{e['line']})" if e["line"] else "")
    return D, "ok", ""


def atexit(prog, k):
    """what the field registry allocated is released by its exit handlers"""
    import p15_field_registry as p15
    D = p15.limbs(prog, 2); it = D.it; it.unroll = 10 ** 6; it.cycles = None; st = D.st0; S = [st]
    zs = [D.zobj(st, f"m{i}", C(p15.B ** 2 - 1 - 2 * i), 2) for i in range(k)]
    had = set(st.heap)
    for z in zs:
        R = p15.look(D, z, S)
        if len(R) != 1: return D, "und", "several outcomes"
        S = [R[0][1]]
    hs = S[0].ghost.get("atexit", ())
    if not hs: return D, "und", "no exit handler"
    n0 = len(it.events)
    for h in hs:
        if h[0] != "fn": return D, "und", "exit handler not known"
        S = D.dos(h[1], [], S)
    if it.doubt or not S: return D, "und", it.doubt or "the handler does not return"
    for s in S:
        left = [o for q, o in s.heap.items() if q[0] == "M" and q not in had and not o.freed]
        if left: return D, "bad", f"{len(left)} allocations of the field registry ({left[0].name}) are left after its exit handlers"
    return D, "ok", ""
