"""C24: worst-case inputs are admissible and reach the worst case"""
import worstdrv as wo

MC = """CONSTANTS BaseBits = 4
Len0 = %d
NN = %d
QQ = %d
CMax = %d
SPECIFICATION Spec
INVARIANTS Bounded Fits Reached
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    for dims in [(3, 1, 1, 2), (2, 1, 2, 1)] + ([(3, 2, 1, 1), (3, 1, 2, 1)] if ctx.thorough else []):
        ctx.mc("MCWorst", MC % (dims + ("",)), timeout=600)
    for d, w in (("DesignOf <- Forward", "impulse response not reversed"), ("DesignOf <- NoD", "direct term forgotten"), ("DesignOf <- OneOff", "one sample off"),
                 ("DesignOf <- FirstBound", "bound of the first input for all")):
        ctx.broken("MCWorst", MC % (2, 1, 2, 1, "CONSTANT %s\n" % d), w)
    cs = [{"h": h, "seed": ctx.rng.randrange(2 ** 30)} for h in ctx.gen("GenWorst", wo.GEN, num=ctx.scale(300, 4000))]
    ctx.judge("WorstTrace", cs, ctx.drive(wo.replay, cs), wo.CFG, keyf=wo.keyf)
