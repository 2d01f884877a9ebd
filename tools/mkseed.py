"""mkseed.py [id ...]: write seeded/<id>/ from tools/plants.py (patch against /repo HEAD)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plants import PLANTS
DEMO = '''#!/bin/bash
# exit 0 when the property holds, 1 when it is broken; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''
REPO = os.environ.get("VERIF_REPO", "/repo")
ids = sys.argv[1:] or list(PLANTS)
for i in ids:
    p = PLANTS[i]
    w = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", w + "/r"], check=True)
    try:
        for f, old, new in p["edits"]:
            q = f"{w}/r/{f}"
            s = open(q, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                raise SystemExit(f"{i}: {f}: {s.count(old)} matches of {old!r}")
            open(q, "w", newline="").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, check=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    o = os.path.join(os.path.dirname(HERE), "seeded", i)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(d)
    open(o + "/demo.sh", "w").write(DEMO)
    open(o + "/demo.py", "w").write(p["demo"].lstrip())
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    print("wrote", i)
