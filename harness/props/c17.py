"""C17: MSBs never overflow and are minimal"""
import wldrv as wd

MC = """CONSTANTS Len0 = %d
SPECIFICATION Spec
INVARIANTS Bounded Reached
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCMsb", MC % (ctx.scale(2, 3), ""), timeout=600)
    for d, w in (("ZetaOf <- NoState", "the past of the intermediate variables forgotten"), ("ZetaOf <- HuLike", "absolute value of the sum"), ("HepsOf <- NoOutput", "rounding of the output forgotten")):
        ctx.broken("MCMsb", MC % (2, "CONSTANT %s\n" % d), w)
    cs = [{"h": h, "seed": ctx.rng.randrange(2 ** 30), "only": "msb"} for h in ctx.gen("GenWl", wd.GEN, num=ctx.scale(500, 4000))]
    ctx.judge("WlTrace", cs, ctx.drive(wd.replay, cs), wd.CFG, keyf=wd.keyf)
