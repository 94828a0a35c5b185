#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]  -- decide one property from the current source tree"""
import glob, importlib.util, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa")); sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from report import Report
from llir import AnalysisBroken


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    c = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    if len(c) != 1: print("no check for", pid); return 3
    spec = importlib.util.spec_from_file_location("chk", c[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    rep = Report(pid, tier)
    try:
        m.run(rep, tier)
        return rep.finish(int(os.environ.get("VERIF_SEED", "1") or 1))
    except AnalysisBroken as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN:", e); return 4
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error:", repr(e)); return 4


if __name__ == "__main__": sys.exit(main())
