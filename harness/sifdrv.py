"""replay of the histories of GenSIFObj on the real SIF / Realization classes"""
import os, random, re
from fractions import Fraction
import numpy as np
from common import mat, gres, eres, res, small, npmat

BLOCKS = ["J", "K", "L", "M", "N", "P", "Q", "R", "S"]
CFG = """CONSTANTS P = 46337
UnitJ = %(unit)d
LowerOnly = %(lower)s
Dims <- %(dims)s
Scales <- %(scales)s
MaxObj = %(maxobj)d
Ops = {%(ops)s}
MaxOps = %(maxops)d
Reset = TRUE
Half = FALSE
KeepHist = TRUE
Widths <- W25
Runs <- AllRuns
NRuns = @RUNS@
Pick1 <- One
GenMats <- %(mats)s
%(more)sSPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
DEF = {"unit": 1, "lower": "FALSE", "dims": "GenDims", "scales": "S0", "maxobj": 1, "maxops": 1, "mats": "RandMats", "more": ""}


def gencfg(**k):
    d = dict(DEF)
    d.update(k)
    d["ops"] = ",".join('"%s"' % x for x in d["ops"])
    return CFG % d


TRACECFG = """CONSTANTS P = 46337
Dims = {}
Scales = {}
MaxObj = 4
Ops <- AllOps
MaxOps = 0
Reset = TRUE
Half = FALSE
KeepHist = FALSE
Widths = {}
Runs = {1}
Pick1 <- All
GenMats <- FromTrace
"""


G = 24         # derived quantities are multiples of 2^-24


def ss(S):
    return {"A": mat(S.A, gres, G), "B": mat(S.B, gres, G), "C": mat(S.C, gres, G), "D": mat(S.D, gres, G)}


def ssx(S):
    return {"A": mat(S.A, eres), "B": mat(S.B, eres), "C": mat(S.C, eres), "D": mat(S.D, eres)}


def imat(M, s=0):
    return mat(M, small, s)


KINDS = ["blocks", "dblocks", "sys", "hu", "heps", "hzeta", "sim", "nbop", "exact", "delta"]


def nscaled(o, sc):
    """number of samples whose values (coefficients in units of 2^-sc, diagonal of J 1 or 2) are multiples of 2^-33"""
    return 2 if 2 * sc + o.l + sc * max(o.l - 1, 0) <= 16 else 1


def observe(o, i, c, rng, sc=0):
    e = {"ev": "obs", "id": i, "c": c}
    if c == "blocks":
        e["m"] = {b: mat(getattr(o, b)) for b in BLOCKS}
        e["m"]["Z"] = mat(o.Z)
        e["m"]["Zcomp"] = mat(o.Zcomp)
        e["size"] = [int(o.l), int(o.n), int(o.p), int(o.q)]
        if tuple(o.size) != tuple(e["size"]) or any(x is not y and not (x == y).all() for x, y in zip(o.JtoS, [getattr(o, b) for b in BLOCKS])):
            e["size"] = [-1, -1, -1, -1]
    elif c == "dblocks":
        e["m"] = {b: imat(getattr(o, "d" + b)) for b in BLOCKS}
        e["m"]["Z"] = imat(o.dZ)
    elif c == "sys":
        e.update(dss=ss(o.dSS), **{k: mat(getattr(o, k), gres, G) for k in ("invJ", "AZ", "BZ", "CZ", "DZ")})
    elif c == "exact":
        if any(o.J[i, j] != (i == j) for i in range(o.l) for j in range(i, o.l)):
            return None         # the exact elimination is for a unit lower triangular J
        e["dss"] = ssx(o.to_dSSexact())
    elif c == "hu":
        e["dss"] = ss(o.Hu)
    elif c == "heps":
        e["dss"] = ss(o.Hepsilon)
    elif c == "hzeta":
        e["dss"] = ss(o.Hzeta)
    elif c == "delta":
        e["dss"] = ss(o.computeDeltaSIF().dSS)
    elif c == "sim":
        N, s = (4, 24) if sc == 0 else (nscaled(o, sc), 33)
        u = [[rng.choice([0, 1, -1, 2, 3]) for _ in range(N)] for _ in range(o.q)]
        e["u"] = {"r": o.q, "c": N, "e": u}
        e["y"] = mat(o.simulate(npmat(e["u"])), gres, s)
    elif c in ("crun", "crun2", "ccode"):
        e["c"] = "crun"
        N, s = (5, 24) if sc == 0 else (nscaled(o, sc), 33)
        u = [[rng.choice([0, 1, -1, 2, 3]) for _ in range(N)] for _ in range(o.q)]
        e["u"] = {"r": o.q, "c": N, "e": u}
        U = npmat(e["u"])
        if c == "ccode":
            e["what"] = "generated code"
            y = crun_text(o, U)
        else:
            e["what"] = "runCdouble"
            y = o.runCdouble(np.array(U) if c == "crun2" else U)
        e["y"] = mat(y, gres, s)
    elif c == "tf":
        if o.p != 1 or o.q != 1:
            return None
        H = o.to_dTF()
        e["num"] = [gres(x, 12, 1e-8) for x in np.ravel(H.num)]
        e["den"] = [gres(x, 12, 1e-8) for x in np.ravel(H.den)]
    elif c == "tikz":
        s = o.getTiKZSparseMatrix()
        body = s[s.index(r"\matrix["):]
        body = body[body.index("{", body.index("]")) + 1:body.index("};\n\\end{tikz")]
        e["cells"] = [[(re.findall(r"\\node \[(\w+)\]", x) or [""])[0] for x in row.split("&")] for row in body.split("\n")[1:] if row.endswith("\\\\")]
    elif c == "tpm":
        e["sparse"] = bool(rng.randrange(2))
        k = {} if rng.randrange(2) else {"strFormat": rng.choice(["%.4f", "%g"])}
        s = o.getZtpmatrixLaTeX(sparse=e["sparse"], **k) if (k or not e["sparse"]) else o.getZtpmatrixLaTeX()
        e["lines"] = [int(x) for x in re.findall(r"line\[dashed\]\{(-?\d+)\}", s)]
        body = s[s.index("]{}") + 3:s.index(r"\end{tpmatrix}")]
        rows = [r.strip() for r in body.strip("\n").split("\n")]
        rows = [r[:-2] if r.endswith("\\\\") else r for r in rows if r.strip() or True]
        rows = [r for r in rows if r or max(o.l, 1) + o.n + o.q == 1]
        cells = [[c_.strip() for c_ in r.split(r"\&")] for r in rows]
        e["cells"] = [[res(Fraction(x)) if x else -3 for x in r] for r in cells]
    elif c == "nbop":
        m, a = o.nbOp()
        e.update(mul=int(m), add=int(a), pnut=bool(o.isPnut()))
    return e


def crun_text(o, U):
    """compile the text of the generated code and call it sample after sample"""
    import ctypes, subprocess, tempfile
    d = tempfile.mkdtemp(dir=os.getcwd())
    name = "step_%d" % (os.getpid() % 7)
    with open(d + "/a.c", "w") as f:
        f.write(o.implementCdouble(name))
    subprocess.run(["cc", "-fPIC", "-shared", "-o", "a.so", "a.c"], cwd=d, check=True, stderr=subprocess.DEVNULL)
    f = getattr(ctypes.CDLL(d + "/a.so"), name)
    D = ctypes.c_double
    x = (D * max(o.n, 1))()
    y = (D * max(o.p, 1))()
    f.restype = D if o.p == 1 else None
    out = np.zeros((o.p, U.shape[1]))
    for k in range(U.shape[1]):
        u = D(float(U[0, k])) if o.q == 1 else (D * o.q)(*[float(U[i, k]) for i in range(o.q)])
        if o.p == 1:
            out[0, k] = f(u, x)
        else:
            f(y, u, x)
            out[:, k] = list(y)
    return out


def txy(o):
    """the systems whose worst-case peak gain is requested for the variables of the implicit form"""
    import stubs
    from fixif.SIF.SIF_tilde_error import WCPG_txy
    del stubs.calls[:]
    try:
        WCPG_txy(o)
    except Exception as x:      # (unstable system: the request has been made)
        if not stubs.calls:
            return [{"err": "%s: %s" % (type(x).__name__, str(x)[:80])}]
    r = []
    for n, a in stubs.calls:
        if n == "ABCD" and np.asarray(a[2]).shape[0] == o.l + o.n + o.p:
            r.append({k: mat(np.matrix(x), gres, G) for k, x in zip("ABCD", a)})
    del stubs.calls[:]
    return r


def attempt(trace, f, what):
    try:
        return f()
    except Exception as x:
        trace.append({"ev": "raise", "what": "%s: %s: %s" % (what, type(x).__name__, str(x)[:150])})
        return None


def replay(case, final=KINDS):
    """case: {'hist': events, 'cls': 'SIF'|'Real', 'seed': n, 'dtype': ...}"""
    from fixif.SIF import SIF, Realization
    rng = random.Random(case["seed"])
    dtypes = {"float": lambda m, sc: npmat(m, sc), "int": lambda m, sc: npmat(m, sc, int if not sc else float),
              "array": lambda m, sc: np.array(npmat(m, sc))}
    conv = dtypes[case["dtype"]]
    objs, scs, args, ctor = {}, {}, [], {}
    tr = [{"ev": "begin"}]

    def give(m, sc=0):
        X = conv(m, sc)
        args.append((m, sc, X))
        return X
    for h in case["hist"]:
        e = dict(h)
        k = e["ev"]
        if k == "new":
            if e["same"] and ctor.get(e["same"]) is not None and ctor[e["same"]][0] == e["z"]:
                JtoS = ctor[e["same"]][1]       # the very same matrices
            else:
                z = e["z"]
                JtoS = tuple(give(z["PP" if b == "P" else b], e["sc"]) for b in BLOCKS)
            d = None
            if not e["auto"]:
                z, D = e["z"], e["dz"]
                X = give(D)
                l, n = z["J"]["r"], z["PP"]["r"]
                r, c = [slice(0, l), slice(l, l + n), slice(l + n, None)], [slice(0, l), slice(l, l + n), slice(l + n, None)]
                d = (X[r[0], c[0]], X[r[1], c[0]], X[r[2], c[0]], X[r[0], c[1]], X[r[0], c[2]], X[r[1], c[1]], X[r[1], c[2]], X[r[2], c[1]], X[r[2], c[2]])
            ctor[e["id"]] = (e["z"], JtoS)
            f = (lambda: SIF(JtoS, d)) if case["cls"] == "SIF" else (lambda: Realization(None, JtoS, d))
            o = attempt(tr, f, "constructor")
            if o is None:
                return tr
            objs[e["id"]], scs[e["id"]] = o, e["sc"]
            tr.append(e)
        elif k in ("set", "setZ", "setd", "setdZ"):
            o, sc = objs[e["id"]], scs[e["id"]]
            name = {"set": e.get("b"), "setZ": "Z", "setd": "d" + e.get("b", ""), "setdZ": "dZ"}[k]
            X = give(e["v"], 0 if k in ("setd", "setdZ") else sc)
            n0 = len(tr)
            attempt(tr, lambda: setattr(o, name, X), "set " + name)
            if len(tr) > n0:
                return tr
            tr.append(e)
        elif k == "try":
            X = conv(e["v"], 0)
            try:
                setattr(objs[e["id"]], e["b"], X)
                e["got"] = "ok"
            except Exception as x:
                e["got"], e["what"] = "raise", type(x).__name__
            tr.append(e)
        elif k == "quant" and case.get("star"):
            from fixif.SIF.SIF_tilde_error import SIFH_to_SIFHstar
            n0 = len(tr)
            R = attempt(tr, lambda: SIFH_to_SIFHstar(objs[e["id"]], e["w"]), "SIFH_to_SIFHstar")
            e["txy"] = txy(objs[e["id"]])
            if len(tr) > n0:
                return tr
            St, Se = R
            objs[e["to"]], scs[e["to"]] = St, 4
            blk = lambda o: {("PP" if b == "P" else b): mat(getattr(o, b)) for b in BLOCKS}
            e.update(ev="star", zt={b: mat(getattr(St, b)) for b in BLOCKS}, ze=blk(Se), dss=ss(Se.dSS))
            tr.append(e)
        elif k == "quant":
            n0 = len(tr)
            R = attempt(tr, lambda: objs[e["id"]].quantize(e["w"]), "quantize")
            if len(tr) > n0:
                return tr
            objs[e["to"]], scs[e["to"]] = R, 4
            tr.append(e)
        elif k == "read":
            x = attempt(tr, lambda: observe(objs[e["id"]], e["id"], e["c"], rng, scs[e["id"]]), "read " + e["c"])
            if x:
                tr.append(x)
    for i in sorted(objs):
        for c in final:
            x = attempt(tr, lambda: observe(objs[i], i, c, rng, scs[i]), "read " + c)
            if x:
                tr.append(x)
    for m, sc, X in args:
        tr.append({"ev": "arg", "was": m, "now": imat(X, sc)})
    return tr


def cases(hists, rng, cls=("SIF", "Real"), dtypes=("float", "int", "array")):
    return [{"hist": h, "cls": rng.choice(cls), "seed": rng.randrange(10 ** 6), "dtype": rng.choice(dtypes)} for h in hists]


def keyf(case, e, clauses):
    """call site of the failure: kind of event, clauses"""
    return "%s/%s/%s" % (e["ev"], e.get("c", e.get("what", ""))[:60], "+".join(clauses))
