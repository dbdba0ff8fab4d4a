"""C08: transfer-function algebra is the algebra of rational functions of the delay"""
import ltidrv as lt
from props.c07 import MC


def run(ctx):
    ctx.mc("MCLTI", MC % (2, 3, 1, "D1", "0,1,2", "tf", ""))
    ctx.mc("MCLTI", MC % (3, 2, 2, "D1", "0,1", "tf", ""))
    ctx.broken("MCLTI", MC % (2, 2, 1, "D1", "0,1", "tf", "CONSTANT TFMul <- BadTFMul\n"), "products that drop the leading zeros of the numerator")
    if ctx.thorough:
        ctx.mc("MCLTI", MC % (3, 3, 1, "D1", "0,1", "tf", ""))
        ctx.mc("MCLTI", MC % (5, 2, 2, "D1", "0,1", "tf", ""))
        ctx.mc("MCLTI", MC % (2, 3, 2, "D1", "0,1", "tf", ""))
    cs = [{"h": h, "snap": 1} for h in ctx.gen("GenLTI", lt.GEN % ("tf", 9, 8), num=ctx.scale(700, 6000))]
    ctx.judge("LTITrace", cs, ctx.drive(lt.replay, cs), lt.CFG, keyf=lt.keyf)
    cs = [{"h": h} for h in ctx.gen("GenLTI", lt.GEN % ("tfx", 9, 8), num=ctx.scale(300, 3000))]
    ctx.judge("LTITrace", cs, ctx.drive(lt.replay, cs), lt.CFG, keyf=lt.keyf)
