"""Shared plumbing of the rules: where the sources are, what a rule reports, and how a run ends."""
import ast
import hashlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = os.environ.get("TFC_ROOT", "/repo")
T0 = time.time()
BUDGET = float(os.environ.get("SA_BUDGET", "720"))
SRC = os.path.join(ROOT, "src", "tfc")

PYMODS = {
    "tfc": "__init__.py",
    "tfc.utfc": "utfc.py",
    "tfc.mtfc": "mtfc.py",
    "tfc.utils": "utils/__init__.py",
    "tfc.utils.BF_Py": "utils/BF_Py.py",
    "tfc.utils.CeSolver": "utils/CeSolver.py",
    "tfc.utils.Html": "utils/Html.py",
    "tfc.utils.Latex": "utils/Latex.py",
    "tfc.utils.MakePlot": "utils/MakePlot.py",
    "tfc.utils.MayaviMakePlot": "utils/MayaviMakePlot.py",
    "tfc.utils.PlotlyMakePlot": "utils/PlotlyMakePlot.py",
    "tfc.utils.TFCUtils": "utils/TFCUtils.py",
    "tfc.utils.tfc_types": "utils/tfc_types.py",
}


class AnchorLost(Exception):
    """A public name the property is about is not in the sources any more."""


_mods = None
_unit = None


def path(rel):
    return os.path.join(SRC, rel)


def modules():
    """Every Python module of the package as ai.Module (also ones added since)."""
    global _mods
    if _mods is None:
        import ai

        _mods = {}
        table = dict(PYMODS)
        for dp, dn, fn in os.walk(SRC):
            for f in fn:
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, f), SRC)
                    name = "tfc." + rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    table.setdefault(name, rel)
        for name, rel in table.items():
            p = path(rel)
            if not os.path.exists(p):
                continue
            with open(p, encoding="utf-8") as f:
                src = f.read()
            _mods[name] = ai.Module(name, p, ast.parse(src, p))
            _mods[name].src = src
    return _mods


def module(name):
    m = modules().get(name)
    if m is None:
        raise AnchorLost("module %s" % name)
    return m


def unit():
    """The C++ translation unit with the basis functions."""
    global _unit
    if _unit is None:
        import cxx

        _unit = cxx.load(path("utils/BF.cc"))
    return _unit


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.ok = []  # (rule, construct)
        self.viol = []  # (key, rule, where, message)
        self.und = []  # (rule, construct, why)
        self.analysed = {"functions": set(), "loops": 0, "stores": 0, "calls": 0}
        self.extra = {}

    def hold(self, rule, construct):
        self.ok.append((rule, construct))

    def violation(self, rule, construct, where, msg):
        key = "%s|%s" % (rule, construct)
        if key not in [v[0] for v in self.viol]:
            self.viol.append((key, rule, where, msg))

    def undecided(self, rule, construct, why):
        self.und.append((rule, construct, str(why)))

    def stats(self, ip):
        self.analysed["functions"] |= ip.stats["functions"]
        for k in ("loops", "stores", "calls"):
            self.analysed[k] += ip.stats[k]


def _job(prop, tier, f, args):
    r = Report(prop, tier)
    try:
        f(r, *args)
    except AnchorLost as e:
        r.undecided("anchor", "%s%s" % (f.__name__, args), e)
    except Exception as e:  # a shape the analyser does not know: no verdict from this obligation
        tb = traceback.format_exc().strip().splitlines()
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        r.undecided("fragment", "%s%s" % (f.__name__, args), "%s: %s [%s]" % (type(e).__name__, str(e)[:300], tb[-3].strip() if len(tb) > 2 else ""))
    return r.ok, r.und, r.viol, r.analysed, r.extra


def parallel(rep, jobs, native=True):
    """Run independent obligations in forked workers; jobs: [(function(rep, *args), args)]."""
    modules()
    if native:
        unit()
    n = max(1, min(len(jobs), os.cpu_count() or 1, 8))
    res = None
    if n > 1 and len(jobs) > 1 and not os.environ.get("SA_SERIAL"):
        res = _forked(rep, jobs, n)
    if res is None:
        res = [_job(rep.prop, rep.tier, f, a) for f, a in jobs]
    for ok, und, viol, an, extra in res:
        rep.ok += ok
        rep.und += und
        for v in viol:
            if v[0] not in [x[0] for x in rep.viol]:
                rep.viol.append(v)
        rep.analysed["functions"] |= an["functions"]
        for k in an:
            if k != "functions":
                rep.analysed[k] = rep.analysed.get(k, 0) + an[k]
        rep.extra.update(extra)


def _forked(rep, jobs, n):
    import pickle
    import selectors

    sys.stdout.flush()
    sys.stderr.flush()
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    live = {}
    sel = selectors.DefaultSelector()
    while todo or live:
        if time.time() - T0 > BUDGET:  # a slow machine: what is not decided by now stays undecided
            for i in todo:
                res[i] = ([], [("budget", "%s%s" % (jobs[i][0].__name__, jobs[i][1]), "time is up")], [], {"functions": set(), "loops": 0, "stores": 0, "calls": 0}, {})
            todo = []
            for pid, i, _ in live.values():
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass
            if not live:
                break
        while todo and len(live) < n:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = pickle.dumps(_job(rep.prop, rep.tier, *jobs[i]))
                    with os.fdopen(w, "wb") as f:
                        f.write(out)
                    code = 0
                except BaseException:
                    pass
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(w)
            live[r] = (pid, i, [])
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select(max(1.0, BUDGET - (time.time() - T0))):
            fd = key.fd
            b = os.read(fd, 1 << 16)
            pid, i, buf = live[fd]
            if b:
                buf.append(b)
                continue
            sel.unregister(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                res[i] = pickle.loads(b"".join(buf))
            except Exception:
                res[i] = ([], [("fragment", "%s%s" % (jobs[i][0].__name__, jobs[i][1]), "worker ended without an answer")], [], {"functions": set(), "loops": 0, "stores": 0, "calls": 0}, {})
    return res


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def src_digest():
    h = hashlib.sha256()
    for dp, dn, fn in sorted(os.walk(SRC)):
        for f in sorted(fn):
            if f.endswith((".py", ".cc", ".h")):
                with open(os.path.join(dp, f), "rb") as g:
                    h.update(f.encode() + b"\0" + g.read())
    return h.hexdigest()[:16]


def finish(rep, t0, spec):
    """Write evidence, print the verdict, return the exit code."""
    kf = [k for k in known() if k.get("property") == rep.prop and k.get("status") == "known"]
    kk = {k["key"]: k for k in kf}
    new = [v for v in rep.viol if v[0] not in kk]
    old = [v for v in rep.viol if v[0] in kk]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rules = {}
    for r, c in rep.ok:
        rules.setdefault(r, [0, 0, 0])[0] += 1
    for v in rep.viol:
        rules.setdefault(v[1], [0, 0, 0])[1] += 1
    for r, c, w in rep.und:
        rules.setdefault(r, [0, 0, 0])[2] += 1
    n = len(rep.ok) + len(rep.viol)
    expl = (
        "Static analysis of the sources under %s (digest %s). %s Rules: " % (SRC, src_digest(), spec.get("what", ""))
        + "; ".join("%s: %d obligations discharged, %d violated, %d undecided" % (r, a, b, c) for r, (a, b, c) in sorted(rules.items()))
        + ". Nothing of the repository was executed."
    )
    ev = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": seed,
        "level": spec.get("level", "other"),
        "coverage": {
            "explanation": expl,
            "obligations": n + len(rep.und),
            "discharged": len(rep.ok),
            "undecided": len(rep.und),
            "functions_analysed": sorted("%s:%s" % f for f in rep.analysed["functions"]),
            "loops_summarised": rep.analysed["loops"],
            "array_stores": rep.analysed["stores"],
            "calls": rep.analysed["calls"],
            "obligation_list": ["%s: %s" % o for o in rep.ok],
            "violation_list": [{"summary": v[3], "replay": v[2], "key": v[0]} for v in new],
            "known_findings": [v[0] for v in old],
            "undecided_list": ["%s: %s (%s)" % o for o in rep.und],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    ev["coverage"].update(rep.extra)
    if os.environ.get("SA_NOEVIDENCE"):
        return _verdict(rep, new, old, kk, n, spec)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    return _verdict(rep, new, old, kk, n, spec)


def _verdict(rep, new, old, kk, n, spec):
    for r, c in rep.ok[:400]:
        print("ok        %-28s %s" % (r, c))
    for r, c, w in rep.und:
        print("UNDECIDED %-28s %s (%s)" % (r, c, w))
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (rep.prop, kk[v[0]].get("what", v[0]), v[3]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d known)" % (rep.prop, n + len(rep.und), len(rep.ok), len(rep.und), len(rep.viol), len(old)))
    for v in new:
        print("violated rule %s [%s] at %s: %s" % (v[1], v[0].split("|", 1)[1], v[2], v[3]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, v[2]))
    if new:
        return 1
    floor = spec.get("floor", 1)
    if n + len(rep.und) < floor:
        print("ANCHORS LOST: %d obligations found, at least %d expected" % (n + len(rep.und), floor))
        return 2
    return 0
