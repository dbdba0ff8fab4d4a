"""C11: multiprecision simulation is exact from any initial state"""
import simdrv as sd

MC = """CONSTANTS BaseBits = 2
N = %d
Vals <- %s
Prec = %d
Len1 = %d
SPECIFICATION Spec
INVARIANTS ExactOK WholeOK RoundOK
CHECK_DEADLOCK FALSE
%s"""
BIG = """CONSTANTS BaseBits = %d
Upto = %d
SPECIFICATION Spec
INVARIANTS NatOK DyOK RoundOK
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCBig", BIG % (2, ctx.scale(30, 90), ""))
    ctx.broken("MCBig", BIG % (2, 20, "CONSTANT DRound <- BadRound\n"), "ties rounded away from zero")
    ctx.broken("MCBig", BIG % (2, 20, "CONSTANT NSub <- BadSub\n"), "subtraction without borrow")
    ctx.mc("MCMPSim", MC % (1, "V5", 0, 3, ""))
    ctx.mc("MCMPSim", MC % (1, "V3", 2, 3, ""))
    ctx.broken("MCMPSim", MC % (1, "V5", 2, 3, "CONSTANT NextState <- BadNext\n"), "products rounded before the sum")
    ctx.broken("MCMPSim", MC % (1, "V3", 0, 2, "CONSTANT Output <- BadOut\n"), "output computed from the next state")
    ctx.broken("MCMPSim", MC % (1, "V3", 0, 2, "CONSTANT SimB <- BadSim\n"), "initial state ignored")
    if ctx.thorough:
        ctx.mc("MCBig", BIG % (3, 70, ""))
        ctx.mc("MCMPSim", MC % (1, "V5", 1, 3, ""))
        ctx.mc("MCMPSim", MC % (2, "V2", 0, 3, ""))
        ctx.mc("MCMPSim", MC % (2, "V2", 2, 3, ""))
    cs = ctx.gen("GenSim", sd.GEN % (4, 5), num=ctx.scale(500, 6000))
    ctx.judge("SimTrace", cs, ctx.drive(sd.replay, cs), sd.CFG, keyf=sd.keyf)
