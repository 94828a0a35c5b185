import importlib, os, re
from scen import *
import lifetime, bounds

REUSE = ("p01_group_law", "p02_scalar_mult", "p03_coordinates", "p06_equality", "p07_point_import", "p08_point_export", "p09_ecdsa_sign", "p10_ecdsa_verify", "p11_signature_bytes",
         "p12_elgamal", "p16_random_source", "p22_base_table")
TEXT = re.compile(r"of a buffer of|beyond the announced|outside the buffer|beyond the end|beyond its end|announced length is|to a buffer of|bytes are written")
SHORT = re.compile(r"mpFp_(add|sub|mul|neg|add_ui|mul_ui|cswap|inv):.*(apart|:1)(:new)?$")      # a wider limit than today's costs more per obligation
MAXWORDS = 40


def run(rep, tier):
    prog = lib_program(); rep.units.update(rel(u) for u in prog.units)
    rep.rule("the widest modulus the field lookup accepts is found by interpreting it for moduli of 1, 2, ... words; every smaller one is accepted")
    rep.rule("every field operation, interpreted at word level for moduli of that width, reads and writes inside its arrays")
    rep.rule("every element whose words are a local array announces no more words than the array has, and the array holds twice the widest modulus")
    rep.rule("over the scenarios of the other library checks: every access at a known offset lies inside its local array, allocated block or announced output")
    fns = {}
    K, mono = widest(prog); rep.cover["widest_modulus_words"] = K
    if K == 0: raise AnalysisBroken("the field lookup accepts no modulus")
    bounds.LIMIT["words"] = K
    import p15_field_registry as p15
    w = prog.where(p15.LOOK)
    obl(rep, "lookup:limit", w, fns, limit, prog, K, mono)
    bounds.install()
    for m in REUSE:
        fake = lifetime.Fake(tier); importlib.import_module(m).run(fake, tier)
        for key, where, f, g, a in fake.tasks: obl(rep, f"{m[:3].upper()}:{key}", where, fns, reuse, g, a)
    for m in ("p13_field_arithmetic", "p14_inverse_sqrt"):
        fake = lifetime.Fake(tier); importlib.import_module(m).run(fake, tier, sizes=(K,))
        for key, where, f, g, a in fake.tasks:
            if K > 20 and not SHORT.search(key): continue
            obl(rep, f"{m[:3].upper()}:{key}", where, fns, reuse, g, a)
    rep.cover["functions_interpreted"] = fns


def widest(prog):
    """largest number of words of a modulus for which the lookup returns; whether all smaller ones are accepted"""
    import p15_field_registry as p15
    ok = []
    for n in list(range(1, 34)) + [MAXWORDS]:
        D = p15.limbs(prog, n)
        try: R = p15.look(D, D.zp, [D.st0])
        except (Violation, AnalysisBroken): R = []
        if R: ok.append(n)
    return max(ok, default=0), ok


def limit(prog, K, ok):
    import p15_field_registry as p15
    D = p15.limbs(prog, 1); p15.look(D, D.zp, [D.st0])
    if K == MAXWORDS: return D, "ok", f"no limit up to {K} words; the operations are checked at that width"
    gap = [n for n in range(1, K) if n not in ok]
    if gap: return D, "bad", f"the lookup refuses moduli of {gap[0]} words but accepts {K}"
    return D, "ok", f"moduli of 1 to {K} words are accepted"


def reuse(g, a):
    lifetime.MADE.clear(); D = None; st = "ok"; msg = ""
    try: D, st, msg = g(*a)
    except Violation as e: st, msg = "bad", str(e)
    except AnalysisBroken as e: st = "ok"
    D = D or (lifetime.Holder(lifetime.MADE[-1]) if lifetime.MADE else None)
    if st == "bad" and TEXT.search(msg): return D, "bad", msg
    bad = [e for it in lifetime.MADE for e in bounds.findings(it)]
    if bad:
        e = bad[0]; return D, "bad", e["msg"] + f" ({e['file']}:{e['line']})"
    return D, "ok", ""
