"""histories of GenWorst replayed on SIF.generate_inputs"""
import random
from anadrv import dy, dym

GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nBaseBits = 12\n"
SC = {"J": "sJ", "K": "sK", "L": "sC", "M": "sK", "N": "sB", "PP": "sA", "Q": "sB", "R": "sC", "S": "sS"}
ATTR = dict({b: b for b in SC}, PP="P")


def replay(case):
    import numpy as np
    from fixif.SIF import SIF, Realization
    h, rng = case["h"], random.Random(case["seed"])

    def mat(b, m):
        return np.matrix(np.array(m["e"], dtype=float).reshape(m["r"], m["c"]) / 2.0 ** h["s"][SC[b]])
    M = {b: mat(b, h["z"][b]) for b in SC}
    JtoS = tuple(M[b].copy() for b in ("J", "K", "L", "M", "N", "PP", "Q", "R", "S"))
    R = SIF(JtoS) if rng.random() < 0.5 else Realization(None, JtoS)
    if rng.random() < 0.5:
        R.dSS
    tr = [{"ev": "begin"}, {"ev": "sif", "z": {b: dym(M[b]) for b in M}}]
    for o in h["ops"]:
        e = {"ev": o["op"], "got": "ok"}
        if o["op"] == "set":
            m = mat(o["b"], o["v"])
            e.update(b=o["b"], v=dym(m))
            f = lambda: setattr(R, ATTR[o["b"]], m)
        else:
            u = [x[0] / 2.0 ** x[1] if x[1] >= 0 else x[0] / -x[1] / 3.0 for x in o["u"]]  # a negative second number: not a dyadic quotient
            a = {"list": list(u), "row": np.matrix([u]), "col": np.matrix([[x] for x in u])}[o["form"]]
            e.update(N=o["N"], u=dym(np.matrix([[x] for x in u])))
            f = lambda: R.generate_inputs(a, o["N"])
        try:
            U = f()
            if o["op"] == "gen":
                e["U"] = dym(U)
                e["sim"] = [dy(float(R.simulate(np.matrix(U))[0, -1]))]
        except Exception as ex:
            e["got"], e["what"] = type(ex).__name__, str(ex)[:150]
        tr.append(e)
    return tr


def keyf(case, e, clauses):
    return "%s/%s/%s" % (e["ev"], "+".join(clauses), "" if e["got"] == "ok" else e["got"])
