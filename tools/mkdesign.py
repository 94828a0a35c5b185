"""writes DESIGN.md from tools/DESIGN.tmpl: table of planted bugs, properties without a check"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/DESIGN.tmpl").read()
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught_by', 'check ' + m['property'])} |")
na = [x for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"] if x["property"] not in ("P32", "P33", "P34")]
t = t.replace("@SEEDS@", "\n".join(rows)).replace("@NA@", "\n".join(f"{x['property']}: {x['reason']}." for x in na))
for k in ("@P20@\n", "@REST@\n", "@DEF@\n"): t = t.replace(k, "")
open(V + "/DESIGN.md", "w").write(t)
