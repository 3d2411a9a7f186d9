"""trybug.py [ID...]: run the named property's check on a scratch copy of src/ with each seeded patch applied."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
ids = [i for x in ids for i in sorted(os.listdir(V + "/seeded")) if i.startswith(x)]


def one(i):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    d = tempfile.mkdtemp(prefix="try_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        r = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, i)], cwd=d + "/r", capture_output=True, text=True)
        if r.returncode:
            return i, m, None, r.stderr
        r = subprocess.run(["python3-vt", V + "/sa/run.py", m["property"]], capture_output=True, text=True, env=dict(os.environ, TFC_ROOT=d + "/r", SA_NOEVIDENCE="1"))
        return i, m, r.returncode, "\n".join("     " + l[:300] for l in r.stdout.splitlines() if l.startswith(("violated", "UNDECIDED", "ANCHOR"))) + r.stderr[-500:]
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(7) as ex:
    for i, m, rc, out in ex.map(one, ids):
        print({1: "CAUGHT", 0: "missed"}.get(rc, "ERROR %s" % rc), i, m["property"])
        print(out[:1500])
