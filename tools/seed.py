"""seed.py SPEC.py: writes seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) from a list SEEDS of dicts
{id, property, file, edits:[[old,new,(n),(file)]], demo, needs, breaks}.  The edit is made in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
for s in ns["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        for e in s["edits"]:
            f = os.path.join(d, "r/src/tfc", e[3] if len(e) > 3 else s["file"])
            t = open(f, newline="").read()
            if "\r\n" in t:
                e = [e[0].replace("\n", "\r\n"), e[1].replace("\n", "\r\n")] + list(e[2:])
            i = -1
            for _ in range((e[2] if len(e) > 2 else 0) + 1):
                i = t.find(e[0], i + 1)
                if i < 0:
                    raise SystemExit("%s: edit not found %r" % (s["id"], e[0]))
            open(f, "w", newline="").write(t[:i] + e[1] + t[i + len(e[0]) :])
        p = subprocess.run(["git", "diff"], cwd=d + "/r", capture_output=True, check=True).stdout
        o = os.path.join(V, "seeded", s["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "wb").write(p)
        open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(o + "/demo.sh", "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexport MPLCONFIGDIR="$(mktemp -d)"\ntrap \'rm -rf "$MPLCONFIGDIR"\' EXIT\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
    finally:
        shutil.rmtree(d)
