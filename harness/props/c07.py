"""C07: state-space algebra composes behaviours"""
import ltidrv as lt

MC = """CONSTANTS P = %d
NM = 7
MaxObj = %d
NewOps = %d
SSDims <- %s
TFOrders = {%s}
Kinds = {"%s"}
Ops <- EveryOp
SPECIFICATION Spec
INVARIANTS TypeOK MeaningOK
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCLTI", MC % (2, 3, 2, ctx.scale("D3s", "D3"), "0", "ss", ""))
    ctx.mc("MCLTI", MC % (2, 3, 1, "D4", "0", "ss", ""))
    ctx.broken("MCLTI", MC % (2, 3, 2, "D4", "0", "ss", "CONSTANT SSSeries <- BadSeries\n"), "product without the composition of the direct terms")
    ctx.broken("MCLTI", MC % (2, 2, 1, "D4", "0", "ss", "CONSTANT Null <- BadNull\n"), "simplification of states driven by the input")
    if ctx.thorough:
        ctx.mc("MCLTI", MC % (2, 3, 2, "D1", "0", "ss", ""))
        ctx.mc("MCLTI", MC % (3, 2, 1, "D1", "0", "ss", ""))
        ctx.mc("MCLTI", MC % (2, 2, 1, "D2", "0", "ss", ""))
    cs = [{"h": h} for h in ctx.gen("GenLTI", lt.GEN % ("ss", 9, 8), num=ctx.scale(500, 4000))]
    cs += [{"h": h, "prec": (53, 20, 200)[i % 3]} for i, h in enumerate(ctx.gen("GenLTI", lt.GEN % ("mp", 8, 6), num=ctx.scale(240, 2000)))]
    ctx.judge("LTITrace", cs, ctx.drive(lt.replay, cs), lt.CFG, keyf=lt.keyf)
