"""C19: quantization gives an independent coherent realization"""
from fractions import Fraction
import sifdrv as sd
from common import eres

OPS = ["set", "setZ", "read", "quant", "quant2"]


def coefs(case):
    """rounding of single coefficients a 2^x on w bits, and rejected word-lengths"""
    import numpy as np
    from fixif.SIF import Realization
    tr = [{"ev": "begin"}]
    a = case["a"]
    Z = [float(Fraction(v) * Fraction(2) ** x) for v, x in a]
    n = len(Z) - 1
    R = Realization(None, (np.eye(0), np.zeros((1, 0)), np.zeros((n, 0)), np.zeros((0, 1)), np.zeros((0, 1)),
                           np.matrix([[Z[0]]]), np.matrix([[1.]]), np.matrix(Z[1:]).T, np.zeros((n, 1))))
    Q = R.quantize(case["w"])
    got = [Q.P[0, 0]] + [Q.R[i, 0] for i in range(n)]
    for (v, x), g in zip(a, got):
        tr.append({"ev": "quant1", "a": v, "x": x, "w": case["w"], "got": eres(g)})
    for w in (0, -1, -case["w"], 2.5, "8", None, float(case["w"])):
        try:
            R.quantize(w)
            tr.append({"ev": "reject", "w": repr(w), "got": "accepted"})
        except Exception as e:
            tr.append({"ev": "reject", "w": repr(w), "got": type(e).__name__})
    return tr


def run(ctx):
    ctx.mc("MCSIFTriv", "SPECIFICATION TSpec\nCONSTANTS P = 5\nDims = {}\nScales = {}\nMaxObj = 1\nOps = {}\nMaxOps = 0\nReset = TRUE\nHalf = FALSE\nKeepHist = FALSE\nWidths = {}\nRuns = {1}\nPick1 <- All\nGenMats <- NoMats\nMaxA = %d\nINVARIANTS TrivOK QuantOK\nCHECK_DEADLOCK FALSE\n" % ctx.scale(300, 3000))
    h = ctx.gen("GenSIFObj", sd.gencfg(maxobj=3, lower="TRUE", ops=["set", "setZ", "read", "quant"], maxops=7), num=ctx.scale(800, 6000), depth=10, shards=8)
    h = [x for x in h if any(e["ev"] == "quant" for e in x)]
    cs = sd.cases(h, ctx.rng, cls=("Real",))
    ctx.judge("SIFTrace", cs, ctx.drive(sd.replay, cs), sd.TRACECFG, keyf=sd.keyf)
    r = ctx.rng
    qs = []
    for k in range(ctx.scale(100, 1000)):
        w = r.randint(1, 14)
        qs.append({"name": "coefs", "w": w, "a": [(r.choice([1, -1]) * (r.choice([0, 1, 2 ** r.randint(0, 14), 2 ** r.randint(1, 14) - 1, 2 ** r.randint(1, 14) + 1,
                  r.randint(1, 2 ** 15)])), r.choice([r.randint(-20, 10), r.randint(-20, 10), r.randint(-80, 60), r.choice([-900, -300, 300, 900])])) for _ in range(8)]})
    ctx.judge("SIFTrace", qs, ctx.drive(coefs, qs), sd.TRACECFG, keyf=sd.keyf)
