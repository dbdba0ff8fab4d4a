"""cases of GenSim replayed on dSSmp.simulate"""
from ltidrv import tmat, mpmat, npm, tok, sharp, crc
from common import mat


def replay(case):
    import mpmath, numpy as np
    from fixif.LTI import dSSmp
    mpmath.mp.prec = 53
    s = case["sys"]
    S = dSSmp(*[tmat(s[k], True) for k in "ABCD"])
    fp = lambda: crc(S.A, S.B, S.C, S.D)
    tr = [{"ev": "begin"}, {"ev": "new", "sys": s, "fp": fp()}]
    for o in case["h"]:
        mpmath.mp.prec = o["prec"]
        u = tmat(o["u"], o["fu"] != "np")
        if o["fu"] == "list":
            u = [[u[i, j] for j in range(u.cols)] for i in range(u.rows)]
        elif o["fu"] == "ndarray":
            u = np.zeros((o["u"]["r"], o["u"]["c"]))
        x0 = None if o["fx"] == "none" else tmat(o["x0"], o["fx"] == "mp")
        arg = lambda: crc(*([u] if o["fu"] in ("np", "mp") else []), *([x0] if x0 is not None else []))
        a = arg()
        e = {"ev": "sim", "o": o, "got": "ok"}
        kw = {} if x0 is None and o["exact"] else {"x0": x0}
        if not o["exact"]:
            kw["exact"] = False
        try:
            y = S.simulate(u, **kw)
        except Exception as ex:
            e["got"], e["what"] = "raise", "%s: %s" % (type(ex).__name__, str(ex)[:100])
        else:
            e["f"] = "mp" if isinstance(y, mpmath.matrix) else type(y).__name__
            e["y"] = mat(y, sharp)
        mpmath.mp.prec = 53
        e["args"], e["sys"] = [a, arg()], fp()
        tr.append(e)
    return tr


GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
MaxCalls = %d
MaxT = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nBaseBits = 12\n"


def keyf(case, e, clauses):
    return "%s/%s" % (e["ev"], "+".join(clauses))
