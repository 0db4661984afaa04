import importlib, os, sys, traceback
from . import ir, report


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module("vx.checks." + prop.lower())
        import time
        t0 = time.time()
        P = ir.load()
        ctx = report.Ctx(prop, tier, seed, P)
        ctx.t0 = t0
        mod.run(ctx)
        return ctx.finish()
    except ir.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1:]))
