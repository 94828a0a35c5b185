from grouplaw import *
import grouplaw


def run(rep, tier):
    prog = lib_program()
    rep.units.update(rel(u) for u in prog.units)
    rep.rule("add, sub, neg and double, interpreted over rational functions in the coordinates, the coefficients and the projective "
             "scale factors, agree with the affine chord-and-tangent law (ws, mo) or the Edwards law (ed, te) in every case of the "
             "case split: generic, equal, inverse, neutral operands, operands differing by a point of order two; with the result "
             "object distinct from or identical to either operand")
    fns = {}
    for op, kind, sc, al in scenarios():
        key = f"{op}:{kind}:{sc}:{al}"
        w = prog.where(op)
        obl(rep, key, w, fns, decide, prog, op, kind, sc, al)
    rep.cover["functions_interpreted"] = fns


NAMES = {"ws": "short Weierstrass", "ed": "Edwards", "te": "twisted Edwards", "mo": "Montgomery"}


def decide(prog, op, kind, sc, al):
    D, R, P1, P2, N, S0, S, exp, nab, nev = grouplaw.run(prog, op, kind, sc, al)
    return (D,) + tuple(judge(D, kind, R, N, S, exp, nab, nev, f"{op} on a {NAMES[kind]} curve, case {sc}, result aliasing {al},"))
