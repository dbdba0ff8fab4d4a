"""histories of GenSens replayed on the sensitivities of SIF"""
import random
from anadrv import dy, dym

GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nBaseBits = 12\n"


def replay(case):
    import warnings
    import numpy as np
    from fixif.SIF import SIF, Realization
    h, rng = case["h"], random.Random(case["seed"])
    l, n, p, q, sK, sB, sC = (h[k] for k in ("l", "n", "p", "q", "sK", "sB", "sC"))
    SZ = {"J": (l, l, 0), "K": (n, l, sK), "L": (p, l, sC), "M": (l, n, sK), "N": (l, q, sB), "PP": (n, n, 4), "Q": (n, q, sB), "R": (p, n, sC), "S": (p, q, 0)}

    def mat(b, v):
        r, c, s = SZ[b]
        return np.matrix(np.array(v, dtype=float).reshape(r, c) / 2.0 ** s)

    def modal(m):
        return {"ms": m["ms"], "T": dym(np.array(m["T"], dtype=float)), "Ti": dym(np.array(m["Ti"], dtype=float))}
    M = {b: mat(b, h[b]) for b in SZ}
    JtoS = tuple(M[b].copy() for b in ("J", "K", "L", "M", "N", "PP", "Q", "R", "S"))
    R = SIF(JtoS) if rng.random() < 0.5 else Realization(None, JtoS)
    nil = not h["mod"]["ms"]
    tr = [{"ev": "begin"}, {"ev": "sif", "z": {b: dym(M[b]) for b in M}, "m": modal(h["mod"])}]
    for op in h["ops"]:
        e = {"ev": op["op"], "got": "ok"}
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if op["op"] == "dtf":
                    e["nil"] = nil
                    m, mx = R.dTFsensitivity()
                    e.update(M=dy(float(m)), MX=dym(mx))
                elif op["op"] in ("pole", "polec"):
                    m, mx, mk = (R.poleSensitivity() if rng.random() < 0.5 else R.poleSensitivity(True)) if op["op"] == "pole" else R.poleSensitivity(moduli=False)
                    mk = np.asarray(mk)
                    e.update(M=dy(float(m)), MX=dym(mx), MXk=[[dym(mk[:, :, k].real), dym(mk[:, :, k].imag)] for k in range(mk.shape[2])])
                elif op["op"] == "set":
                    v = mat(op["b"], op["v"])
                    e.update(b=op["b"], v=dym(v))
                    setattr(R, op["b"], v)
                elif op["op"] == "setA":
                    K, PP = mat("K", op["K"]), mat("PP", op["PP"])
                    nil = not op["mod"]["ms"]
                    e.update(K=dym(K), PP=dym(PP), m=modal(op["mod"]))
                    R.K = K
                    if rng.random() < 0.5:
                        R.Hepsilon
                    R.P = PP
                elif op["op"] == "setdZ":
                    e["v"] = op["v"]
                    R.dZ = np.matrix(op["v"]) / 4.
                else:
                    R.dSS, R.Hu, R.Hepsilon
        except Exception as ex:
            e["got"], e["what"] = type(ex).__name__, str(ex)[:150]
        tr.append(e)
    return tr


def keyf(case, e, clauses):
    return "%s/%s/%s" % (e["ev"], "+".join(clauses), "" if e["got"] == "ok" else e["got"])
