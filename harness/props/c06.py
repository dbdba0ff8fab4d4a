"""C06: multiprecision matrix arithmetic is exact"""
import mpdrv as mp

MC = """CONSTANTS P = %d
N = %d
Prec = {1,2,3}
Ints <- %s
SPECIFICATION Spec
INVARIANTS InvOK PolyOK ProdOK DotOK FitOK
CHECK_DEADLOCK FALSE
%s"""


def run(ctx):
    ctx.mc("MCMPArith", MC % (3, 3, "I5", ""))
    ctx.mc("MCMPArith", MC % (2, 4, "I5", ""))
    ctx.broken("MCMPArith", MC % (3, 3, "I5", "CONSTANT AddStep <- RAdd\n"), "accumulation at the working precision")
    ctx.broken("MCMPArith", MC % (3, 3, "I5", "CONSTANT MulStep <- RMul\n"), "products at the working precision")
    ctx.broken("MCMPArith", MC % (3, 3, "I5", "CONSTANT FwdCol <- BadFwd\n"), "forward substitution that forgets a term")
    if ctx.thorough:
        ctx.mc("MCMPArith", MC % (5, 3, "I7", ""))
        ctx.mc("MCMPArith", MC % (2, 5, "I7", ""))
        ctx.mc("MCMPArith", MC % (3, 4, "I5", ""))
    cs = [{"h": h, "prec": (53, 20, 200, 5)[i % 4]} for i, h in enumerate(ctx.gen("GenMP", mp.GEN % 16, num=ctx.scale(1200, 12000)))]
    ctx.judge("MPTrace", cs, ctx.drive(mp.replay, cs), mp.CFG, keyf=mp.keyf)
