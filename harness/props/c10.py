"""C10: state-space analysis values are right and stay right under similarity"""
import anadrv as ad

MC = """CONSTANTS P = %d
N = %d
MaxSteps = %d
SPECIFICATION Spec
INVARIANTS Fresh EqOK
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCAna", MC % (2, 2, 3, ""))
    ctx.mc("MCAna", MC % (3, 2, 0, ""))
    ctx.broken("MCAna", MC % (2, 2, 3, "CONSTANT AfterSimil <- KeepAll\n"), "values kept across a similarity transform")
    ctx.broken("MCAna", MC % (2, 2, 3, "CONSTANT AfterSimil <- KeepGramian\n"), "observability Gramian kept across a similarity transform")
    ctx.broken("MCAna", MC % (2, 2, 1, "CONSTANT WoOf <- BadWo\n"), "Gramian of the transposed state matrix")
    if ctx.thorough:
        ctx.mc("MCAna", MC % (3, 2, 2, ""))
        ctx.mc("MCAna", MC % (2, 3, 1, ""))
    cs = [{"h": h} for h in ctx.gen("GenAna", ad.GEN % 9, num=ctx.scale(260, 2600))]
    ctx.judge("AnaTrace", cs, ctx.drive(ad.replay, cs), ad.CFG, keyf=ad.keyf)
