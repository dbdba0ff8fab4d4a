"""C18: the uniform word-length is sufficient and minimal"""
import wldrv as wd

MC = """CONSTANTS BaseBits = 4
MaxZ = %d
MaxG = 2
MaxE = %d
SPECIFICATION Spec
INVARIANTS Optimal Formats
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCWl", MC % ((9, 4, "") if not ctx.thorough else (17, 12, "")), timeout=800)
    for d, w in (("Enough <- NotStrict", "bound met with equality"), ("Errs <- NoThreshold", "overflow of the largest values ignored"), ("Threshold <- Late", "threshold one bit too low"),
                 ("Threshold <- FiniteT", "finite threshold for a power of two"), ("Up <- OnceUp", "one correction only")):
        ctx.broken("MCWl", MC % (8, 3, "CONSTANT %s\n" % d), w)
    cs = [{"h": h, "seed": ctx.rng.randrange(2 ** 30)} for h in ctx.gen("GenWl", wd.GEN, num=ctx.scale(300, 3000))]
    ctx.judge("WlTrace", cs, ctx.drive(wd.replay, cs), wd.CFG, keyf=wd.keyf)
