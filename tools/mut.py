"""Self-test of the rules: apply textual edits to a scratch copy of the sources and run checks on it.

usage: python3-vt tools/mut.py FILE.json [substring]
FILE.json: list of {"name","file","edits":[[old,new,(n)]],"props":[..],"expect":"caught"|"quiet"}.
The scratch copy holds only src/ and is never built or executed here.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def apply(txt, old, new, n=0):
    idx = -1
    for _ in range(n + 1):
        idx = txt.find(old, idx + 1)
        if idx < 0:
            raise SystemExit("edit not found: %r #%d" % (old, n))
    return txt[:idx] + new + txt[idx + len(old) :]


def one(m):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(os.environ.get("MUT_SRC", "/repo") + "/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
        if "patch" in m:
            p = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.join(V, m["patch"])], cwd=d, capture_output=True, text=True)
            if p.returncode:
                return m, [("-", "patch failed " + p.stderr, "")]
        for e in m.get("edits", []):
            f = os.path.join(d, "src/tfc", e[3] if len(e) > 3 else m["file"])
            t = open(f).read()
            t = apply(t, e[0], e[1], e[2] if len(e) > 2 else 0)
            open(f, "w").write(t)
        out = []
        for p in m["props"]:
            env = dict(os.environ, TFC_ROOT=d, SA_NOEVIDENCE="1")
            r = subprocess.run(["python3-vt", V + "/sa/run.py", p], capture_output=True, text=True, env=env)
            lines = [l for l in r.stdout.splitlines() if l.startswith(("violated", "UNDECIDED", "ANCHOR"))]
            out.append((p, r.returncode, lines[:4] + ([r.stderr[-300:]] if r.returncode not in (0, 1) else [])))
        return m, out
    finally:
        shutil.rmtree(d)


def main():
    ms = json.load(open(sys.argv[1]))
    if len(sys.argv) > 2:
        ms = [m for m in ms if sys.argv[2] in m["name"]]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("MUT_THREADS", "4"))) as ex:
        for m, out in ex.map(one, ms):
            rcs = [o[1] for o in out]
            got = "caught" if 1 in rcs else ("quiet" if all(r == 0 for r in rcs) else "error")
            flag = "" if got == m["expect"] else "   <<<<<< expected " + m["expect"]
            bad += bool(flag)
            print("%-8s %s%s" % (got, m["name"], flag))
            for p, rc, ls in out:
                for l in ls:
                    print("        %s rc=%s %s" % (p, rc, l[:230]))
            sys.stdout.flush()
    print("unexpected:", bad)


main()
