"""C14: enumeration yields each accepted structure and option combination once"""
import enumdrv as ed

MC = """CONSTANTS NIter = %d
SPECIFICATION Spec
INVARIANTS Each DefaultOK
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCEnum", MC % (1, ""))
    if ctx.thorough:
        ctx.mc("MCEnum", MC % (2, ""), timeout=800)
    ctx.broken("MCEnum", MC % (1, "CONSTANT Keep <- KeepDefault\n"), "acceptance asked for the default options")
    ctx.broken("MCEnum", MC % (1, "CONSTANT Bump <- BadBump\n"), "odometer without reset")
    hs = ctx.gen("GenEnum", ed.GEN % 14, num=ctx.scale(420, 3000))
    cs = [{"h": h, "finish": 1} for h in hs]
    ctx.judge("EnumTrace", cs, ctx.drive(ed.replay, cs), ed.CFG, keyf=ed.keyf)
