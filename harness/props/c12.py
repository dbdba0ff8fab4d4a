"""C12: the multiprecision working precision is never left changed"""
import precdrv as pd

MC = """CONSTANTS Precs <- %s
Depth = %d
SPECIFICATION Spec
INVARIANTS Left Own
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCPrec", MC % ("Wide", 4, ""))
    ctx.broken("MCPrec", MC % ("Small", 3, "CONSTANT OnRaise <- NoRestore\n"), "precision not restored when an exception passes")
    ctx.broken("MCPrec", MC % ("Small", 3, "CONSTANT Keep <- Default\n"), "default precision put back")
    ctx.broken("MCPrec", MC % ("Small", 3, "CONSTANT Keep <- Digits\n"), "precision saved as a number of decimal digits")
    if ctx.thorough:
        ctx.mc("MCPrec", MC % ("Wide", 7, ""))
    cs = [{"h": h, "prec": (53, 20, 200, 54)[i % 4]} for i, h in enumerate(ctx.gen("GenPrec", pd.GEN % (pd.NFN, 12), num=ctx.scale(700, 10000)))]
    # every function once with each kind of arguments, without fault and with faults at the first calls
    for fn in range(1, pd.NFN + 1):
        h = []
        for i, kind in enumerate(("ok", "size", "type", "nonfinite", "complex", "mimo", "unstable", "empty")):
            for fault in (0, 1, 2, 3, 7) if kind in ("ok", "mimo") else (0,):
                for s in (1, 2):
                    h.append({"op": "call", "fn": fn, "kind": kind, "fault": fault, "seed": 10 * s + i})
            h.append({"op": "prec", "v": (53, 99, 300)[i % 3]})
        cs.append({"h": h, "prec": 53})
    ctx.judge("PrecTrace", cs, ctx.drive(pd.replay, cs), pd.CFG, keyf=pd.keyf)
