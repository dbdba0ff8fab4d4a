import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Ctx, Machinery, load


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    load(ctx.scratch)
    try:
        mod = importlib.import_module("props." + pid.lower())
        mod.run(ctx)
    except Machinery as e:
        if not ctx.violations:
            print("CHECK-ERROR %s: %s" % (pid, e))
            return 2
        print("note: %s" % e)
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
