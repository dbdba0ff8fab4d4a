"""C03: SIF-derived systems agree with the implicit-form computation"""
import sifdrv as sd

MC = """CONSTANTS P = %d
DIMS <- %s
SPECIFICATION Spec
INVARIANTS TypeOK ZRoundTrip IOBehaviour HuOK HzetaOK HepsOK ForwardIsInverse
CHECK_DEADLOCK FALSE
"""
FINAL = ["sys", "sim", "exact", "tf", "hu", "hzeta", "heps", "delta", "sim"]


def run(ctx):
    ctx.mc("MCSIFTheory", MC % (2, ctx.scale("D0", "D2")), timeout=800)
    if ctx.thorough:
        ctx.mc("MCSIFTheory", MC % (3, "D1"), timeout=800)
    # fresh objects of every size, and objects reached by assignments
    h = ctx.gen("GenSIFObj", sd.gencfg(dims="BigDims", ops=["read"]), num=ctx.scale(600, 4000), depth=4, shards=8)
    h += ctx.gen("GenSIFObj", sd.gencfg(dims="Siso", ops=["read"]), num=ctx.scale(300, 2000), depth=4, shards=8, seed=ctx.seed + 1)
    h += ctx.gen("GenSIFObj", sd.gencfg(ops=["set", "setZ"], maxops=3), num=ctx.scale(300, 2000), depth=6, shards=8, seed=ctx.seed + 2)
    cs = sd.cases(h, ctx.rng)
    ctx.judge("SIFTrace", cs, ctx.drive(lambda c: sd.replay(c, FINAL), cs), sd.TRACECFG, keyf=sd.keyf)
