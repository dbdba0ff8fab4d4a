"""C16: a gabarit denotes its bands"""
import banddrv as bd

MC = """CONSTANTS MaxF = %d
MaxB = 3
SPECIFICATION Spec
INVARIANTS Kept Promise Usual
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCBands", MC % (ctx.scale(7, 9), ""))
    for d, w in (("Place <- Last", "bands in the order given"), ("EdgesOf <- Swapped", "pass and stop edges swapped"), ("EdgesOf <- Inner", "beginning of a band for its end")):
        ctx.broken("MCBands", MC % (6, "CONSTANT %s\n" % d), w)
    hs = ctx.gen("GenBands", bd.GEN, num=ctx.scale(420, 3500))
    cs = [{"h": h, "seed": ctx.rng.randrange(2 ** 30)} for h in hs]
    ctx.judge("BandsTrace", cs, ctx.drive(bd.replay, cs), bd.CFG, keyf=bd.keyf)
