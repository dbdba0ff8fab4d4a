"""C01: a SIF stays coherent under every history of assignments and reads"""
import sifdrv as sd

OPS = ["set", "setZ", "setd", "setdZ", "read", "new", "try"]
MC = """CONSTANTS P = %(P)d
Dims <- SmallDims
Scales <- S0
MaxObj = 2
Ops = {%(ops)s}
MaxOps = %(maxops)d
Reset = TRUE
Half = FALSE
KeepHist = FALSE
Widths = {2}
Runs = {1}
Pick1 <- All
GenMats <- AllMats
SPECIFICATION Spec
VIEW View
INVARIANTS Coherent TypeOK BlocksOfZ Regular
PROPERTY Isolation
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    ctx.mc("MCSIFObj", MC % {"P": 5, "ops": ",".join('"%s"' % o for o in OPS), "maxops": ctx.scale(2, 3)}, timeout=ctx.scale(300, 800))
    ctx.broken("MCSIFObj", (MC % {"P": 5, "ops": '"set","read"', "maxops": 2}).replace("Reset = TRUE", "Reset = FALSE"), "caches kept by assignments")
    ctx.broken("MCSIFObj", (MC % {"P": 5, "ops": '"try","read"', "maxops": 2}).replace("Half = FALSE", "Half = TRUE"), "coefficients replaced by a refused assignment")
    hists = ctx.gen("GenSIFObj", sd.gencfg(maxobj=2, ops=OPS, maxops=10), num=ctx.scale(1000, 8000), depth=13, shards=8)
    cs = sd.cases(hists, ctx.rng)
    ctx.judge("SIFTrace", cs, ctx.drive(sd.replay, cs), sd.TRACECFG, keyf=sd.keyf)
