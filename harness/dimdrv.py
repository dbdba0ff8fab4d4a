"""constructions of GenDims on the real classes"""
import random


def replay(case):
    import numpy as np
    import mpmath
    from fixif.SIF import SIF, Realization
    from fixif.LTI import dSS, dSSmp, dTF, dTFmp, Filter
    rng = random.Random(case["seed"])
    kind = case["kind"]
    F = Filter(num=[1, 2], den=[1, 0.5])

    def mpm(M):
        X = mpmath.mp.matrix(*M.shape)
        for i in range(M.shape[0]):
            for j in range(M.shape[1]):
                X[i, j] = mpmath.mpf(float(M[i, j]))
        return X

    def vals(r, c, unit=False):
        M = np.array([[rng.choice([0, 1, -1, 2, 3, 0.5, -1.25]) for _ in range(c)] for _ in range(r)], dtype=float).reshape(r, c)
        if unit:
            M = np.tril(M, -1) + np.eye(r, c)
        return M

    def give(M):
        f = rng.randrange(4)
        if M.size and f == 0:
            return M.tolist()
        if f == 1:
            return np.array(M)
        return np.matrix(M)

    def same(x, M):
        if hasattr(x, "rows"):
            return (x.rows, x.cols) == M.shape and all(x[i, j] == M[i, j] for i in range(M.shape[0]) for j in range(M.shape[1]))
        return np.array_equal(np.asarray(x), M)
    shape = lambda x: [int(x.rows), int(x.cols)] if hasattr(x, "rows") else [int(v) for v in x.shape]
    tr = [{"ev": "begin"}]
    for sh in case["sh"]:
        e = {"ev": "make", "kind": kind, "sh": sh}
        S = None
        try:
            if kind in ("sif", "real"):
                Ms = [vals(r, c, i == 0) for i, (r, c) in enumerate(sh)]
                X = [give(M) for M in Ms]
                S = SIF(tuple(X)) if kind == "sif" else Realization(F, tuple(X))
                e["size"] = [int(S.l), int(S.n), int(S.p), int(S.q)]
                bs = [S.J, S.K, S.L, S.M, S.N, S.P, S.Q, S.R, S.S]
            elif kind in ("ss", "mpnp", "mpmp", "filter"):
                Ms = [vals(r, c) for r, c in sh]
                if kind == "ss": S = dSS(*[give(M) for M in Ms])
                elif kind == "filter": S = Filter(**{k: give(M) for k, M in zip("ABCD", Ms)}).dSS
                else: S = dSSmp(*[mpm(M) if kind == "mpmp" else np.matrix(M) for M in Ms])
                e["size"] = [int(S.n), int(S.p), int(S.q)]
                if kind == "ss" and tuple(S.size) != tuple(e["size"]):
                    e["size"] = [-1, -1, -1]
                bs = [S.A, S.B, S.C, S.D]
            else:
                Ms = [vals(r, c) for r, c in sh]
                if Ms[1].size:
                    Ms[1].flat[0] = 1
                mk = {"tf": lambda a, b: dTF(give(a), give(b)), "tfmp": lambda a, b: dTFmp(*([mpm(a), mpm(b)] if rng.randrange(2) else [np.matrix(a), np.matrix(b)])),
                      "tffilter": lambda a, b: Filter(num=give(a), den=give(b)).dTF}[kind]
                S = mk(*Ms)
                e["size"] = [int(S.order)]
                n = S.order + 1
                pad = lambda M: [float(x) for x in M.flat] + [0.0] * (n - M.size)
                fl = lambda x: [float(x[i]) for i in range(len(x))] if hasattr(x, "rows") else [float(v) for v in np.asarray(x).flat]
                bs = []
                e["same"] = int(fl(S.num) == pad(Ms[0]) and fl(S.den) == pad(Ms[1]))
            e["back"] = [shape(b) for b in bs]
            if bs:
                e["same"] = int(all(same(b, M) for b, M in zip(bs, Ms)))
            e["got"] = "ok"
        except Exception as x:
            e["got"] = type(x).__name__
            S = None
        tr.append(e)
        if S is not None and (kind in ("sif", "mpnp") or (kind == "real" and rng.randrange(12) == 0 and case["cc"])) and S.p and S.q:
            for rows in ([S.q, S.q + 1, S.q - 1, rng.randrange(5)] if kind != "real" else [S.q, S.q + 1]):
                cols = rng.randrange(0, 4)
                g = {"ev": "sim", "p": int(S.p), "q": int(S.q), "rows": rows, "cols": cols}
                try:
                    u = np.matrix(vals(rows, cols))
                    y = S.runCdouble(u) if kind == "real" else S.simulate(u)
                    g["got"], g["y"] = "ok", shape(y)
                except Exception as x:
                    g["got"] = type(x).__name__
                tr.append(g)
    return tr


GEN = """CONSTANTS MaxD = %d
MaxS = %d
Pairs = %d
Lo = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\n"


def keyf(case, e, clauses):
    return "%s/%s/%s" % (e["ev"], e.get("kind", ""), "+".join(clauses))
