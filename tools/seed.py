"""seed.py make SPEC.py | verify ID...   (development aid: plants and confirms a bug in a scratch copy of /repo)
SPEC defines ID, PROP, NEEDS, WHAT, EDITS=[(file, old, new)], FILES={name: text} (must include demo.sh)"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded"


def make(spec):
    g = {}; exec(open(spec).read(), g)
    d = f"{V}/{g['ID']}"; os.makedirs(d, exist_ok=True)
    c = tempfile.mkdtemp(prefix="seedmk_")
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", c + "/r"], check=True)
        for f, old, new in g["EDITS"]:
            p = f"{c}/r/{f}"; t = open(p).read()
            if t.count(old) != 1: sys.exit(f"{g['ID']}: {f}: OLD occurs {t.count(old)} times")
            open(p, "w").write(t.replace(old, new))
        df = subprocess.run(["git", "-C", c + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(df)
    finally: shutil.rmtree(c)
    for n, t in g["FILES"].items():
        open(f"{d}/{n}", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["WHAT"]}, open(d + "/meta.json", "w"), indent=1)
    return g["ID"]


def verify(i, tests=True):
    d = f"{V}/{i}"; c = tempfile.mkdtemp(prefix="seed_"); prop = json.load(open(d + "/meta.json"))["property"]
    dd = c + "/demo"; shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        subprocess.run(["cp", "-a", "/repo", c + "/r"], check=True)
        ns = lambda s, t=900: subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {c}/r /repo && cd /repo && " + s], capture_output=True, text=True, timeout=t)
        out = {}
        b = ns(f"bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash {dd}/demo.sh"); out["demo_base"] = b.returncode
        if b.returncode: print(i, "BASE DEMO FAILS", b.stdout[-500:], b.stderr[-500:])
        a = subprocess.run(["git", "-C", c + "/r", "apply", d + "/patch.diff"], capture_output=True, text=True)
        if a.returncode: print(i, "patch does not apply", a.stderr); return
        b = ns("bash /opt/vp/build.sh 2>&1 | tail -5"); out["build"] = "build ok" in b.stdout
        if not out["build"]: print(i, b.stdout)
        b = ns(f"timeout 300 bash {dd}/demo.sh"); out["demo_patched"] = b.returncode
        out["demo_msg"] = (b.stdout + b.stderr)[-160:]
        ck = ns(f"python3 /verif/check.py {prop}"); out["check"] = ck.returncode
        out["check_msg"] = [l for l in ck.stdout.splitlines() if "[" in l][:2]
        if tests:
            ns(f"bash /opt/vp/test.sh {c}/out.json")
            r = json.load(open(c + "/out.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            out["tests_failed"] = [t for t in st if t not in set(r["passed"])]
        good = out["demo_base"] == 0 and out["build"] and out["demo_patched"] != 0 and not out.get("tests_failed")
        print(i, prop, "GOOD" if good else "NOT-GOOD", "CAUGHT" if out["check"] == 1 else f"missed({out['check']})", json.dumps(out))
    finally: shutil.rmtree(c)


if sys.argv[1] == "make":
    for s in sys.argv[2:]: print("made", make(s))
elif sys.argv[1] == "both":
    for s in sys.argv[2:]: verify(make(s))
else:
    from concurrent.futures import ThreadPoolExecutor
    ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(V))
    with ThreadPoolExecutor(3) as ex: list(ex.map(lambda i: verify(i, "--notests" not in sys.argv), ids))
