"""C15: an imported Simulink diagram keeps the diagram's behaviour"""
import slxdrv as sl

MC = """CONSTANTS P = 5
TwoSums = %s
Part = %d
SPECIFICATION Spec
INVARIANT Behaviour
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCDiagram", MC % ("FALSE", ctx.scale(8, 1), ""), timeout=800)
    ctx.mc("MCDiagram", MC % ("TRUE", ctx.scale(120, 12), ""), timeout=800)
    for m, w in (("Acc <- Overwrite", "parallel paths overwrite each other"), ("Inline <- LoseOther", "merged terms overwrite the others"), ("Sole <- NotSole", "a sum used elsewhere is merged")):
        ctx.broken("MCDiagram", MC % ("FALSE" if "Acc" in m else "TRUE", 120, "CONSTANT %s\n" % m), w)
    hs = ctx.gen("GenDiagram", sl.GEN % 9, num=ctx.scale(400, 3000)) + ctx.gen("GenDiagram", sl.GEN % 18, num=ctx.scale(100, 1000))
    cs = [{"h": h, "seed": ctx.rng.randrange(2 ** 30)} for h in hs]
    cs += [{"h": h, "bad": ("text", "noxml", "unsupported")[i % 3], "seed": ctx.rng.randrange(2 ** 30)} for i, h in enumerate(hs[:12])]
    ctx.judge("DiagramTrace", cs, ctx.drive(sl.replay, cs), sl.CFG, keyf=sl.keyf)
