"""Writes the tables of DESIGN.md (between the markers) from meta, seeded/ and known_findings.json."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim import meta
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()


def put(name, text):
    global s
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + text + "\n" + b, s, flags=re.S)


rows = ["| planted change | check | needs | what breaks |", "|---|---|---|---|"]
res = json.load(open(os.path.join(ROOT, "tools", "caught.json"))) if os.path.exists(os.path.join(ROOT, "tools", "caught.json")) else {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {res.get(d, m['property'])} | {m['needs']} | {m['what_it_breaks']} |")
put("plants", "\n".join(rows))
put("fixed", "\n".join("* " + f.replace("fixed: property=", "") for f in json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"]))
put("cost", "\n".join(["| check | quick runs | thorough runs |", "|---|---|---|"] + [f"| {k} | {v['runs']['quick']} | {v['runs']['thorough']} |" for k, v in sorted(meta.META.items())]))
open(p, "w").write(s)
