"""C02: every structure and option realizes exactly the filter it is given"""
import structdrv as st

MC = """CONSTANTS P = %d
ORDERS = {%s}
RHO = {%s}
SPECIFICATION Spec
INVARIANTS TypeOK AllRealize AllExecutable
CHECK_DEADLOCK FALSE
"""
GEN = "CONSTANTS P = 46337\nNRuns = @RUNS@\nKind = \"%s\"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    ctx.mc("MCStructures", MC % (3, "1,2", "1,2"), timeout=800)
    if ctx.thorough:
        ctx.mc("MCStructures", MC % (5, "1", "1"), timeout=800)
        ctx.mc("MCStructures", MC % (2, "1,2,3", "1,2,3"), timeout=800)
    # constant gains
    par = {"g": [1] * 4, "d": [0] * 4, "same": 0}
    fs = [{"kind": "ss", "A": {"r": 0, "c": 0, "e": []}, "B": {"r": 0, "c": 1, "e": []}, "C": {"r": 1, "c": 0, "e": [[]]}, "D": {"r": 1, "c": 1, "e": [[2]]}, "sc": 0},
          {"kind": "tf", "num": [3], "den": [2], "sn": 1, "sd": 0, "lead": 2}]
    cs = [{"g": {"f": f, "par": par}, "stable": s, "pick": 0, "seed": 0, "bad": False} for f in fs for s in (None, True)]
    for kind, num in (("tf", ctx.scale(200, 800)), ("stable", ctx.scale(300, 1200)), ("ss", ctx.scale(60, 400))):
        for i, g in enumerate(ctx.gen("GenFilter", GEN % kind, num=num)):
            cs.append({"g": g, "stable": True if kind == "stable" else None, "pick": ctx.scale(14, 0), "seed": i, "k": (0, -70, 0, 40)[i % 4], "bad": kind == "stable" and i % 10 == 0})
    ctx.judge("StructTrace", cs, ctx.drive(st.replay, cs), "CONSTANT P = 46337\n", keyf=st.keyf)
