"""C09: conversions between representations preserve the filter"""
import ltidrv as lt
from props.c07 import MC as MC0
MC = MC0.replace("EveryOp", "ConvOps")


def run(ctx):
    ctx.mc("MCLTI", MC % (3, 4, 1, "D4s", "0,1", "tf\",\"ss", ""))
    ctx.broken("MCLTI", MC % (3, 2, 1, "D4s", "0,1", "tf\",\"ss", "CONSTANT TFtoSSObs <- BadObs\n"), "observable form without the feedthrough of the numerator")
    if ctx.thorough:
        ctx.mc("MCLTI", MC % (3, 2, 1, "D5", "0,1", "tf\",\"ss", ""))
        ctx.mc("MCLTI", MC % (3, 3, 1, "D4", "0,1,2", "tf\",\"ss", ""))
        ctx.mc("MCLTI", MC % (5, 2, 1, "D4s", "0,1", "tf\",\"ss", ""))
    # the outputs of one history in four are tiny, of another one huge
    cs = [{"h": lt.scaled(h, (0, -70, 0, 45)[i % 4]), "scale": (0, -70, 0, 45)[i % 4], "snap": 1} for i, h in enumerate( ctx.gen("GenLTI", lt.GEN % ("conv", 8, 6), num=ctx.scale(700, 6000)))]
    cs += [{"h": h, "prec": (53, 20, 200)[i % 3]} for i, h in enumerate(ctx.gen("GenLTI", lt.GEN % ("mp", 8, 5), num=ctx.scale(300, 3000)))]
    cs += [{"h": h, "prec": (53, 53, 120, 20)[i % 4]} for i, h in enumerate(ctx.gen("GenLTI", lt.GEN % ("convx", 8, 6), num=ctx.scale(300, 3000)))]
    ctx.judge("LTITrace", cs, ctx.drive(lt.replay, cs), lt.CFG, keyf=lt.keyf)
