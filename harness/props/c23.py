"""C23: a sum of products prints exactly its non-zero terms"""
import textdrv as td

CFG = "CONSTANT P = 46337\n"


def run(ctx):
    ctx.mc("MCAlgo", "SPECIFICATION Spec\nCONSTANTS P = 2\nMDims <- DQ\nINVARIANT OK\nCHECK_DEADLOCK FALSE\n")
    cs = ctx.gen("GenText", "SPECIFICATION Spec\nCONSTANTS P = 46337\nNRuns = @RUNS@\nWhat = \"sop\"\nCHECK_DEADLOCK FALSE\n", num=ctx.scale(3000, 30000))
    ctx.judge("TextTrace", cs, ctx.drive(td.sop, cs), CFG, keyf=td.keyf)
