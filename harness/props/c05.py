"""C05: the algorithm text executes to the realization's outputs"""
import textdrv as td

CFG = "CONSTANT P = 46337\n"
GEN = "SPECIFICATION Spec\nCONSTANTS P = 46337\nNRuns = @RUNS@\n%sCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.mc("MCAlgo", "SPECIFICATION Spec\nCONSTANTS P = %s\nMDims <- %s\nINVARIANT OK\nCHECK_DEADLOCK FALSE\n" % ctx.scale(("2", "DQ"), ("2", "D22")))
    r = ctx.rng
    cs = ctx.gen("GenAlgo", GEN % "", num=ctx.scale(600, 6000))
    cs = [{"g": g, "seed": r.randrange(10 ** 6)} for g in cs]
    ctx.judge("TextTrace", cs, ctx.drive(td.algo, cs), CFG, keyf=td.keyf)
    cs = []
    for kind in ("tf", "stable", "ss"):
        cs += [{"g": g, "seed": r.randrange(10 ** 6), "stable": kind == "stable", "pick": ctx.scale(3, 6)}
               for g in ctx.gen("GenFilter", GEN % ("Kind = \"%s\"\n" % kind), num=ctx.scale(80, 600))]
    ctx.judge("TextTrace", cs, ctx.drive(td.algo_struct, cs), CFG, keyf=td.keyf)
