"""mut.py PID FILE OLD NEW [n]: run one check against a scratch copy of /repo with one textual change (development aid)"""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="mut_")
try:
    for x in ("src", "include", "python", "ecgo", "examples"):
        shutil.copytree("/repo/" + x, d + "/" + x, ignore=shutil.ignore_patterns("*.o", "*.lo", ".libs"))
    for x in ("setup.py",): shutil.copy("/repo/" + x, d)
    p = os.path.join(d, f); t = open(p).read()
    if old not in t: sys.exit("OLD not found")
    i = -1
    for _ in range(n + 1): i = t.index(old, i + 1)
    open(p, "w").write(t[:i] + new + t[i + len(old):])
    for q in pid.split(","):
        r = subprocess.run([sys.executable, "/verif/check.py", q], env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
        o = (r.stdout + r.stderr).splitlines()
        print("\n".join(o[:8])); print("exit", r.returncode)
finally: shutil.rmtree(d)
