"""filters of GenFilter given to the real structures"""
import itertools
from fractions import Fraction
import numpy as np
from common import mat, gres, eres, npmat, exact, res, WILD
import sifdrv as sd


def make_filter(f, stable=None, k=0):
    """the filter f, its output multiplied by 2^k"""
    from fixif.LTI import Filter
    if f["kind"] == "tf":
        num = np.matrix([[x / 2.0 ** (f["sn"] - k) for x in f["num"]]])
        den = np.matrix([[x / 2.0 ** f["sd"] for x in f["den"]]])
        return Filter(num=num, den=den, stable=stable), [num, den]
    m = [npmat(f[b], f["sc"]) * (2.0 ** k if b in "CD" else 1) for b in "ABCD"]
    return Filter(A=m[0], B=m[1], C=m[2], D=m[3], stable=stable), m


def fr(M):
    return [[exact(M[i, j]) for j in range(M.shape[1])] for i in range(M.shape[0])]


def run_sif(R, U):
    """execute the implicit form on the inputs (list of q-vectors of Fractions), exactly"""
    J, K, L, M, N, P, Q, R_, S = [fr(np.matrix(getattr(R, b))) for b in sd.BLOCKS]
    l, n, p = len(J), len(P), len(S)
    dot = lambda a, b: sum((x * y for x, y in zip(a, b) if x and y), Fraction(0))
    x, out = [Fraction(0)] * n, []
    for u in U:
        t = []
        for i in range(l):
            t.append(dot(M[i], x) + dot(N[i], u) - dot(J[i][:i], t))
        xn = [dot(K[i], t) + dot(P[i], x) + dot(Q[i], u) for i in range(n)]
        out.append([dot(L[i], t) + dot(R_[i], x) + dot(S[i], u) for i in range(p)])
        x = xn
    return out


def impulses(R, N, lead, s, rel):
    q, p = R.q, R.p
    cols = [run_sif(R, [[Fraction(int(k == 0 and i == j)) for i in range(q)] for k in range(N)]) for j in range(q)]
    r = []
    for k in range(N):
        rows = []
        for i in range(p):
            rows.append([gres(cols[j][k][i] * lead, s, rel) for j in range(q)])
        r.append({"r": p, "c": q, "e": rows})
    return r


def finite(R):
    return all(np.isfinite(np.asarray(getattr(R, b), dtype=float)).all() for b in sd.BLOCKS)


def event(R, f, name, opt, loose=False, k=0):
    """(the realization is compared with f once its output is divided by 2^k)"""
    what = "%s %s" % (name, sorted((k, v if not hasattr(v, "tolist") else v.tolist()) for k, v in opt.items()))
    if not finite(R):
        return {"ev": "raise", "what": what + ": coefficients that are not numbers"}
    G, rel = (10, 1e-6) if loose else (24, 1e-9)
    n = max(len(f["num"]), len(f["den"])) - 1 if f["kind"] == "tf" else f["A"]["r"]
    J = np.asarray(R.J)
    unit = bool((np.diag(J) == 1).all() and (J == np.tril(J)).all()) if J.size else True
    cmpz = not loose and R.l <= 8 and not k
    z = {}
    for b in sd.BLOCKS:
        X = np.matrix(getattr(R, b))
        z["PP" if b == "P" else b] = mat(X, gres, G, rel) if cmpz else {"r": int(X.shape[0]), "c": int(X.shape[1]), "e": []}
    e = {"ev": "real", "st": name, "opt": what, "f": f, "z": z, "unit": unit, "order": int(R.n), "lead": f.get("lead", 1), "cmpz": cmpz}
    e["imp"] = impulses(R, int(R.n) + n + 1, Fraction(e["lead"]) / Fraction(2) ** k, G, rel)
    return e


def plans(f, par, stable):
    """every structure with every combination of its options, and the free parameters of the rho form"""
    from fixif.Structures.Structure import Structure
    n = max(len(f["num"]), len(f["den"])) - 1 if f["kind"] == "tf" else f["A"]["r"]
    for st in list(Structure.iterAllStructures()):
        opts = st.options or {}
        for vals in itertools.product(*opts.values()):
            yield st, dict(zip(opts, vals))
    g = np.array([[x / 4.0 for x in par["g"][:n]]])
    d = np.array([[2.0 ** x for x in (par["d"][:n] if not par["same"] else [0] * n)]])
    for t, s in itertools.product([True, False], [True, False]):
        st = Structure.getFromName("rhoDFII")
        yield st, {"gamma": g, "Delta": d, "transposed": t, "equiv_dSS": s}
        yield st, {"gamma": g, "transposed": t, "equiv_dSS": s}
        yield st, {"Delta": d, "transposed": t, "equiv_dSS": s}
    for sc in ("l2", "l2-relaxed"):
        yield Structure.getFromName("rhoDFII"), {"gamma": g, "scaling": sc, "transposed": True, "equiv_dSS": False}


def replay(case):
    f, par = case["g"]["f"], case["g"]["par"]
    stable = case["stable"]
    tr = [{"ev": "begin"}]
    n0 = [0]

    def one(st, opt):
        F, given = make_filter(f, stable, case.get("k", 0))
        if not st.canAcceptFilter(F, **opt):
            return None
        R = st.makeRealization(F, **opt)
        return event(R, f, st._shortName, opt, loose=st._shortName in ("LGS", "LCW") or opt.get("scaling") == "l2", k=case.get("k", 0))
    ps = list(plans(f, par, stable))
    if case.get("pick"):
        import random
        random.Random(case["seed"]).shuffle(ps)
        ps = ps[:case["pick"]]
    for st, opt in ps:
        x = sd.attempt(tr, lambda: one(st, opt), "%s %s" % (st._shortName, sorted((k, v if not hasattr(v, "tolist") else v.tolist()) for k, v in opt.items())))
        if x:
            tr.append(x)
    if case.get("bad"):
        from fixif.Structures.Structure import Structure
        F, _ = make_filter(f, stable)
        for name, opt in (("DFI", {"nbSum": 3}), ("DFI", {"nbSum": 0}), ("dSS", {"form": "foo"}), ("rhoDFII", {"scaling": "foo"})):
            try:
                Structure.getFromName(name).makeRealization(F, **opt)
                got = "accepted"
            except Exception as x:
                got = type(x).__name__
            tr.append({"ev": "reject", "got": got, "what": "%s %s" % (name, opt)})
    return tr


def keyf(case, e, clauses):
    return "%s/%s/%s" % (e["ev"], (e.get("st") or e.get("what", ""))[:70], "+".join(clauses))
