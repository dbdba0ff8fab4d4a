"""C21: variable names denote the right variable at the right time"""
import textdrv as td

CFG = "CONSTANT P = 46337\n"


def run(ctx):
    ctx.mc("MCNames", "SPECIFICATION Spec\nCONSTANTS MaxN = %d\nINVARIANTS Distinct TimesDistinct\nCHECK_DEADLOCK FALSE\n" % ctx.scale(2, 4))
    cs = ctx.gen("GenText", "SPECIFICATION Spec\nCONSTANTS P = 46337\nNRuns = @RUNS@\nWhat = \"name\"\nCHECK_DEADLOCK FALSE\n", num=ctx.scale(3000, 30000))
    ctx.judge("TextTrace", cs, ctx.drive(td.names, cs), CFG, keyf=td.keyf)
