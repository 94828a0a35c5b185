import p26_bindings as b, pylayer as py


def judged(f):
    def g(prog, *a):
        py.REFS = []
        D, st, msg = f(prog, *a)
        return (D, "ok", f"{len(py.REFS)} outcomes") if py.REFS else (D, "und", "no outcome" if st != "und" else msg)
    return g


def run(rep, tier):
    rep.rule("after every call, and after the object it returned or initialised is released again through its type's destructor, every argument and every object reachable from the arguments has at least as many references as before; nothing is released twice, the returned object is alive")
    b.scenarios(rep, tier + " refs", judged)
