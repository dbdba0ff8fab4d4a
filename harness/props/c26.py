"""C26: the error system of a degraded realization is the difference with the exact one"""
import sifdrv as sd

MC = """CONSTANTS P = 2
Moves = %d
MaxK = 3
Fixed = {%s}
SPECIFICATION Spec
INVARIANTS %s
CHECK_DEADLOCK FALSE
%s"""
FIX = '"l1", "m2", "r", "k2", "n1"'


def run(ctx):
    ctx.mc("MCTilde", MC % ((1, FIX, "Difference Closed", "") if not ctx.thorough else (2, '"l1", "m2", "r"', "Difference Closed", "")), timeout=800)
    for d, w in (("OldJ", "degraded J forgotten"), ("NoDeltaQ", "degraded Q forgotten"), ("ExactK", "exact K after the perturbation"), ("Swapped", "exact and degraded exchanged")):
        ctx.broken("MCTilde", MC % (1, FIX, "Difference", "CONSTANT FormOf <- %s\n" % d), w)
    h = ctx.gen("GenSIFObj", sd.gencfg(maxobj=3, lower="TRUE", ops=["set", "setZ", "read", "quant"], maxops=6), num=ctx.scale(900, 7000), depth=10, shards=8)
    h = [x for x in h if any(e["ev"] == "quant" for e in x)]
    cs = [dict(c, star=1) for c in sd.cases(h, ctx.rng)]
    ctx.judge("SIFTrace", cs, ctx.drive(sd.replay, cs), sd.TRACECFG, keyf=sd.keyf)
