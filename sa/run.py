"""run.py <PROPERTY> [quick|thorough]: decide one property from the sources of the repository."""
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import core  # noqa: E402
from specs import SPECS  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = SPECS[prop]
    rep = core.Report(prop, tier)
    try:
        for modname, fn in spec["rules"]:
            m = importlib.import_module(modname)
            try:
                getattr(m, fn)(rep)
            except core.AnchorLost as e:
                print("ANCHOR LOST: %s" % e)
                rep.undecided("anchor", modname + "." + fn, e)
                rep.extra["anchor_lost"] = str(e)
            except RecursionError as e:
                rep.undecided("fragment", modname + "." + fn, "recursion limit")
            except Exception as e:  # the analyser met a shape it does not know: no verdict from this rule
                tb = traceback.format_exc().strip().splitlines()
                if os.environ.get("SA_DEBUG"):
                    traceback.print_exc()
                rep.undecided("fragment", modname + "." + fn, "%s: %s [%s]" % (type(e).__name__, e, tb[-3].strip() if len(tb) > 2 else ""))
    except SyntaxError as e:
        print("the sources do not parse: %s" % e)
        return 2
    rc = core.finish(rep, t0, spec)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
