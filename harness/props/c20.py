"""C20: triviality markers, operation counts and layout describe the coefficients"""
import sifdrv as sd

FINAL = ["dblocks", "nbop", "tikz", "tpm", "tpm"]


def marker(case):
    """coefficients +-2^e (1 + s 2^-k), one per entry of a 1-input SIF's Z"""
    import numpy as np
    from fixif.SIF import SIF
    tr = [{"ev": "begin"}]
    for sg, e, s, k in case["coefs"]:
        x = sg * 2.0 ** e * (1 + (s * 2.0 ** -k if k else 0))
        S = SIF(tuple(np.matrix([[v]]) for v in (1., 0, 0, 0, 0, x, 0, 0, 0)))
        tr.append({"ev": "triv", "k": k, "got": int(S.dZ[1, 1]), "sg": sg, "e": e, "s": s})
        S.N = np.matrix([[x]])
        tr.append({"ev": "triv", "k": k, "got": int(S.dN[0, 0]), "sg": sg, "e": e, "s": s})
    return tr


def text(case):
    """coefficients a 2^-10, next to integers, displayed with all their digits"""
    import numpy as np, re
    from common import res
    from fractions import Fraction
    from fixif.SIF import SIF
    tr = [{"ev": "begin"}]
    for a in case["as"]:
        S = SIF(tuple(np.matrix([[v]]) for v in (1., 0, 0, 0, 0, a / 1024., 0, 0, 1.)))
        t = S.getZtpmatrixLaTeX(sparse=False, strFormat="%.10f")
        rows = [r for r in t[t.index("]{}") + 3:t.index(r"\end{tpmatrix}")].strip().split("\n")]
        c = rows[1].replace("\\\\", "").split(r"\&")[1].strip()
        tr.append({"ev": "num1", "a": a, "x": -10, "got": res(Fraction(c))})
    return tr


def run(ctx):
    ctx.mc("MCSIFTriv", "SPECIFICATION TSpec\nCONSTANTS P = 5\nDims = {}\nScales = {}\nMaxObj = 1\nOps = {}\nMaxOps = 0\nReset = TRUE\nHalf = FALSE\nKeepHist = FALSE\nWidths = {}\nRuns = {1}\nPick1 <- All\nGenMats <- NoMats\nMaxA = %d\nINVARIANTS TrivOK QuantOK\nCHECK_DEADLOCK FALSE\n" % ctx.scale(300, 3000))
    h = ctx.gen("GenSIFObj", sd.gencfg(dims="BigDims", ops=["setd", "setdZ", "set"], maxops=2), num=ctx.scale(500, 3000), depth=5, shards=8)
    h += ctx.gen("GenSIFObj", sd.gencfg(dims="BigDims", unit=8, scales="S3", ops=["set"], maxops=1), num=ctx.scale(500, 3000), depth=4, shards=8, seed=ctx.seed + 1)
    cs = sd.cases(h, ctx.rng)
    ctx.judge("SIFTrace", cs, ctx.drive(lambda c: sd.replay(c, FINAL), cs), sd.TRACECFG, keyf=sd.keyf)
    r = ctx.rng
    ms = [{"name": "markers", "coefs": [(r.choice([1, -1]), r.randint(-40, 40), r.choice([1, -1]), r.choice([0, 2, 3, 5, 10, 20, 24, 25, 26, 29, 30, 35, 45])) for _ in range(40)]}
          for _ in range(ctx.scale(20, 200))]
    ctx.judge("SIFTrace", ms, ctx.drive(marker, ms), sd.TRACECFG, keyf=sd.keyf)
    ts = [{"name": "text", "as": [r.choice([1, -1]) * (1024 * r.choice([0, 1, 2, 3, 7, 100]) + r.choice([0, 1, -1, 2, -3, 8, 20, 512, r.randint(-1023, 1023)])) for _ in range(20)]} for _ in range(ctx.scale(10, 100))]
    ctx.judge("SIFTrace", ts, ctx.drive(text, ts), sd.TRACECFG, keyf=sd.keyf)
