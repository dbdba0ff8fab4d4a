"""C25: transfer-function and pole sensitivities match their definition"""
import sensdrv as sd

MC = """CONSTANTS Len0 = 3
Wide = %s
SPECIFICATION Spec
INVARIANTS Derivative Pole
CHECK_DEADLOCK FALSE
%s"""
MCP = """CONSTANTS Bnd = %d
SPECIFICATION Spec
INVARIANTS Vanishes
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCSens", MC % ("TRUE" if ctx.thorough else "FALSE", ""), timeout=600)
    ctx.mc("MCPoles", MCP % (ctx.scale(2, 4), ""), timeout=600)
    for d, w in (("M1 <- OnlyD", "effect on the states forgotten"), ("N1 <- NoT", "intermediate variables forgotten"), ("RowOf <- Transposed", "rows and columns exchanged")):
        ctx.broken("MCSens", MC % ("FALSE", "CONSTANT %s\n" % d), w)
    for d, w in (("Dla <- Swapped", "derivative with respect to the transposed entry"), ("Dla <- RightOnly", "right eigenvector used on both sides")):
        ctx.broken("MCPoles", MCP % (2, "CONSTANT %s\n" % d), w)
    cs = [{"h": h, "seed": ctx.rng.randrange(2 ** 30)} for h in ctx.gen("GenSens", sd.GEN, num=ctx.scale(120, 1500))]
    ctx.judge("SensTrace", cs, ctx.drive(sd.replay, cs), sd.CFG, keyf=sd.keyf)
