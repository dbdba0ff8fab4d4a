"""histories of GenAna replayed on dSS and dTF; all numbers logged exactly, as dyadic numbers in base 2^12"""
from common import exact


def dy(x):
    f = exact(x)
    if f is None:
        return {"s": 9, "m": [], "e": 0}
    if f == 0:
        return {"s": 0, "m": [], "e": 0}
    n, d = abs(f.numerator), f.denominator
    e = -(d.bit_length() - 1)
    assert d & (d - 1) == 0
    while n % 2 == 0:
        n //= 2
        e += 1
    m = []
    while n:
        m.append(n % 4096)
        n //= 4096
    return {"s": 1 if f > 0 else -1, "m": m, "e": e}


def dym(M):
    import numpy as np
    M = np.asarray(M)
    if M.ndim == 0:
        M = M.reshape(1, 1)
    if M.ndim == 1:
        M = M.reshape(1, -1)
    return {"r": int(M.shape[0]), "c": int(M.shape[1]), "e": [[dy(x) for x in row] for row in M]}


def dss(A, B, C, D):
    return {"A": dym(A), "B": dym(B), "C": dym(C), "D": dym(D)}


def replay(case):
    import warnings
    import numpy as np, stubs
    from fixif.LTI import dSS, dTF
    M = lambda rows, r, c: np.matrix(np.array(rows, dtype=float).reshape(r, c))
    heap, tr = [], [{"ev": "begin"}]

    def objs():
        return [dss(S.A, S.B, S.C, S.D) for S in heap]

    def calls():
        out = []
        for name, a in stubs.calls:
            if name == "ABCD":
                out.append({"s": dss(*a), "ret": dym(stubs.WCPG_value(*a))})
        return out
    for o in case["h"]:
        e = {"ev": o["op"], "o": o, "got": "ok"}
        del stubs.calls[:]
        x = None
        try:
            if o["op"] == "new":
                n, p, q = o["n"], o["p"], o["q"]
                heap.append(dSS(M(o["A4"], n, n) / 4, M(o["B"], n, q), M(o["C"], p, n), M(o["D"], p, q)))
            elif o["op"] == "read":
                S, w, info = heap[o["i"] - 1], o["w"], {}
                if w == "Wo": x = S.Wo
                elif w == "Wc": x = S.Wc
                elif w == "calcWo": S.calc_Wo("linalg"); x = S.Wo
                elif w == "calcWc": S.calc_Wc(); x = S.Wc
                elif w == "H2": x = S.H2norm()
                elif w == "DC": x = S.calc_DC_gain()
                elif w == "W": x = S.WCPG()
                else: x = S.WCPG(info)
                e["val"], e["info"], e["calls"] = dym(x), int(bool(info)), calls()
                if w in ("H2", "DC"):
                    A, B = [np.array(v, dtype=float, copy=True) for v in (S.A, S.B)]
                    n = A.shape[0]
                    if w == "DC":
                        e["wit"] = dym(np.linalg.solve(np.eye(n) - A, B)) if n else dym(B)
                    else:
                        W = np.linalg.solve(np.eye(n * n) - np.kron(A, A), (B @ B.T).reshape(n * n, 1)).reshape(n, n) if n else np.zeros((0, 0))
                        e["wit"] = dym(W)
            elif o["op"] == "marg":
                n, p, q = o["n"], o["p"], o["q"]
                S = dSS(M(o["A4"], n, n) / 4, M(o["B"], n, q), M(o["C"], p, n), M(o["D"], p, q))
                e["s"], e["res"] = dss(S.A, S.B, S.C, S.D), []
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    for k in o["order"]:
                        w = ("Wo", "Wc", "H2", "DC")[k - 1]
                        try:
                            x = getattr(S, w) if k <= 2 else S.H2norm() if k == 3 else S.calc_DC_gain()
                            e["res"].append({"w": w, "got": "ok", "val": dym(x)})
                        except ValueError:
                            e["res"].append({"w": w, "got": "ValueError", "val": dym(0)})
                        except Exception as ex:
                            e["res"].append({"w": w, "got": type(ex).__name__, "val": dym(0)})
                A = np.array(S.A)
                e["s1"] = dss(S.A, S.B, S.C, S.D)
                e["wit"] = dym(np.linalg.solve(np.eye(n) - A, np.array(S.B))) if not (np.diag(A) == 1).any() else dym(S.B)
            elif o["op"] == "simil":
                n = len(o["T"])
                T = M(o["T"], n, n)
                e["T"] = dym(T)
                if o["bad"] == "size":
                    T = np.matrix(np.eye(n + 1))
                elif o["bad"] == "singular":
                    T = np.matrix(np.zeros((n, n)))
                if o["f"] == "array":
                    T = np.array(T)
                elif o["f"] == "list":
                    T = np.array(T).tolist()
                heap[o["i"] - 1].similarity(T)
            else:
                t = dTF(np.matrix(o["num"], dtype=float), np.matrix(o["den4"], dtype=float) / 4)
                x, y = t.WCPG(), t.WCPG()
                e["val"], e["again"], e["num"], e["den"] = dym(x), dym(y), dym(t.num), dym(t.den)
                e["calls"] = [{"num": dym(a[0]), "den": dym(a[1]), "ret": dym(stubs.WCPG_TF(*a))} for n_, a in list(stubs.calls) if n_ == "TF"]
        except Exception as ex:
            e["got"], e["what"] = "raise", "%s: %s" % (type(ex).__name__, str(ex)[:100])
        e["objs"] = objs()
        tr.append(e)
        if o["op"] == "new" and e["got"] != "ok":
            break
    return tr


GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
MaxLen = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nBaseBits = 12\nTolBits = 24\n"


def keyf(case, e, clauses):
    return "%s/%s/%s" % (e["ev"], e.get("o", {}).get("w", ""), "+".join(clauses))
