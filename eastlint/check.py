"""python3 -m eastlint.check C06   (run in /verif)"""
import importlib, os, sys, time, traceback
from . import facts, registry, report


def main():
    pid = sys.argv[1]
    mod, fn, technique, note = registry.CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    m = importlib.import_module("eastlint." + mod)
    res = getattr(m, fn)(tier)
    return report.finish(pid, res, tier, seed, t0, technique)


if __name__ == "__main__":
    try:
        rc = main()
    except facts.FactsError as e:
        print("ERROR: the current source could not be analysed: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
