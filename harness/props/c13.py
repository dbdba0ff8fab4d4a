"""C13: random filters are reproducible from their seed or name"""
import rngdrv as rd

MC = """CONSTANTS MaxLen = %d
Pars = {1, 2}
Seeds = {0, 1}
SPECIFICATION Spec
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCRng", MC % (ctx.scale(5, 7), ""), timeout=800)
    for d, w in (("Seed <- SeedTruthy", "seed 0 taken for no seed"), ("NameOf <- NameAsked", "name with another seed"), ("Seed <- SeedAdds", "stream not reset")):
        ctx.broken("MCRng", MC % (4, "CONSTANT %s\n" % d), w)
    hs = ctx.gen("GenRng", rd.GEN % 18, num=ctx.scale(420, 3000))
    cs = [{"h": h, "seed": ctx.rng.randrange(2 ** 32)} for h in hs]
    ctx.judge("RngTrace", cs, ctx.drive(rd.replay, cs), rd.CFG, keyf=rd.keyf)
