"""Obligations, findings, evidence and exit status of one check."""
import json, os, signal, sys, time, traceback
from llir import AnalysisBroken, Violation, rel, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]


TASKS = []
LIMIT = {}


class OutOfTime(BaseException): pass


def _alarm(*a): raise OutOfTime()


def _one(i):
    """decide one obligation within its share of the time budget"""
    key, where, fns, f, a = TASKS[i]
    left = LIMIT["end"] - time.time()
    if left < 1: return i, "und", "time budget of the check used up", {}
    signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, min(left, LIMIT["each"]))
    try:
        D, st, msg = f(*a)
        return i, st, msg, (dict(D.it.analysed) if D is not None else {})
    except OutOfTime:
        return i, "und", "time limit of one obligation reached", {}
    except AnalysisBroken as e:
        if "not found" in str(e): return i, "broken", str(e), {}
        return i, "und", str(e), {}
    except Violation as e:
        return i, "bad", str(e), {}
    except RecursionError:
        return i, "und", "expression too deep", {}
    except Exception:
        return i, "und", "internal error: " + " | ".join(traceback.format_exc().strip().split("\n")[-3:]), {}
    finally: signal.setitimer(signal.ITIMER_REAL, 0)


class Report:
    """status of an obligation: ok, bad (a violation with its construct), und (could not be decided; the check stays quiet)"""

    def __init__(self, prop, tier="quick"):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.obs = {}; self.cover = {}; self.notes = []; self.assume = []; self.units = set(); self.rules = []; self.tasks = []

    def rule(self, text):
        if text not in self.rules: self.rules.append(text)

    def add(self, key, status, msg="", where=None, detail=None):
        """the worst status of a key wins: bad > und > ok"""
        rank = {"ok": 0, "und": 1, "bad": 2}
        o = self.obs.get(key)
        if o is None or rank[status] > rank[o["status"]]:
            self.obs[key] = {"status": status, "msg": msg, "where": where or "", "detail": detail}

    def ok(self, key, msg="", where=None): self.add(key, "ok", msg, where)
    def bad(self, key, msg, where=None, detail=None): self.add(key, "bad", msg, where, detail)
    def und(self, key, msg, where=None): self.add(key, "und", msg, where)

    def decide(self):
        """decide the queued obligations, one process per core"""
        global TASKS
        quick = self.tier != "thorough"
        LIMIT.update(each=100 if quick else 600, end=self.t0 + (560 if quick else 840))
        TASKS = self.tasks; self.tasks = []
        if not TASKS: return
        n = min(int(os.environ.get("SA_JOBS", "0")) or os.cpu_count() or 1, len(TASKS))
        if n > 1:
            import multiprocessing as mp
            with mp.get_context("fork").Pool(n, maxtasksperchild=40) as pool: res = pool.map(_one, range(len(TASKS)), chunksize=1)
        else: res = [_one(i) for i in range(len(TASKS))]
        for i, st, msg, an in res:
            key, where, fns, f, a = TASKS[i]
            if st == "broken": raise AnalysisBroken(msg)
            for k, v in an.items(): fns[k] = fns.get(k, 0) + v
            self.add(key, st, msg, where)

    def require(self, n, what):
        if n <= 0: raise AnalysisBroken(f"{self.prop}: no instance of {what} found")

    def finish(self, seed=1):
        self.decide()
        known = [k for k in known_findings() if k["property"] == self.prop and k.get("status") == "open"]
        hit = []; viol = []
        for k, o in self.obs.items():
            if o["status"] != "bad": continue
            f = next((x for x in known if x["key"] == k), None)
            if f: hit.append((f, o))
            else: viol.append((k, o))
        nok = sum(o["status"] == "ok" for o in self.obs.values())
        nun = sum(o["status"] == "und" for o in self.obs.values())
        if not self.obs: raise AnalysisBroken(f"{self.prop}: no obligation was generated")
        if nok == 0 and not viol: raise AnalysisBroken(f"{self.prop}: no obligation could be decided ({nun} undecided)")
        cov = {"explanation": "static analysis of the current source; each obligation is one rule instance decided from the program representation without running it",
               "rules": self.rules, "obligations": len(self.obs), "discharged": nok, "undecided": nun,
               "undecided_list": [f"{k}: {o['msg']}" for k, o in self.obs.items() if o["status"] == "und"][:40],
               "known_findings_matched": [f["key"] for f, _ in hit],
               "samples": [f"{k}: {o['msg']}" if o["msg"] else k for k, o in list(self.obs.items())[:8]],
               "sources": sorted(self.units)}
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": self.tier, "seed": seed, "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assume,
              "violations": [{"key": k, "where": o["where"], "msg": o["msg"]} for k, o in viol]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1, default=str)
        for k, f in enumerate(known):
            o = next((o for x, o in hit if x is f), None)
            if o is not None: print(f"KNOWN-FINDING: property={self.prop} {f['key']}: {f['what']}")
        print(f"{self.prop}: {len(self.obs)} obligations, {nok} discharged, {nun} undecided, {len(viol)} violated, "
              f"{len(hit)} known; {round(time.time() - self.t0, 1)} s")
        for k, o in list(self.obs.items()):
            if o["status"] == "und": print(f"  undecided {k}: {o['msg']}")
        if not viol: return 0
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        rp = os.path.join("evidence", "replay", self.prop + ".txt")
        with open(os.path.join(VERIF, rp), "w") as fh:
            for k, o in viol:
                fh.write(f"{k}\n  at {o['where']}\n  {o['msg']}\n")
                if o["detail"]: fh.write("  " + str(o["detail"]).replace("\n", "\n  ") + "\n")
        for k, o in viol[:25]:
            print(f"{o['where']}: [{k}] {o['msg']}")
        print(f"VIOLATION property={self.prop} replay={rp}")
        return 1
