"""histories of GenLTI replayed on the real LTI classes"""
import zlib
from fractions import Fraction
from common import mat, res, exact

NAN = -1


def tok(t):
    return Fraction(t[0]) * Fraction(2) ** t[1] + Fraction(t[2]) * Fraction(2) ** t[3]


def to_mpf(x):
    """exact mpf, whatever the working precision"""
    import mpmath
    x = Fraction(x)
    e = x.denominator.bit_length() - 1
    assert 1 << e == x.denominator
    return mpmath.mp.make_mpf(mpmath.libmp.from_man_exp(x.numerator, -e))


def mpmat(rows, r, c):
    import mpmath
    M = mpmath.mp.matrix(r, c)
    for i in range(r):
        for j in range(c):
            M[i, j] = to_mpf(rows[i][j])
    return M


def npm(rows, r, c):
    import numpy as np
    return np.matrix(np.array([[float(x) for x in y] for y in rows], dtype=float).reshape(r, c))


def tmat(m, mp):
    rows = [[tok(x) for x in y] for y in m["e"]]
    return (mpmat if mp else npm)(rows, m["r"], m["c"])


def scaled(h, s):
    """the same history, with every output (C, D, numerator) multiplied by 2^s"""
    def sc(v):
        return [[t[0], t[1] + s, t[2], t[3] + s] for t in v]
    out = []
    for o in h:
        o = dict(o)
        if o["op"] == "newss":
            for k in "CD":
                o[k] = dict(o[k], e=[sc(r) for r in o[k]["e"]])
        elif o["op"] == "newtf":
            o["num"] = sc(o["num"])
        out.append(o)
    return out


def snap(x, s=0):
    """residue of 2^s times the small rational next to x/2^s if there is one, of x itself otherwise"""
    f = exact(x)
    if f is not None and s:
        f /= Fraction(2) ** s
        r = f.limit_denominator(4096)
        return res((r if abs(f - r) <= Fraction(1, 10 ** 9) * max(1, abs(f)) else f) * Fraction(2) ** s)
    if f is None:
        return NAN
    r = f.limit_denominator(4096)
    if abs(f - r) <= Fraction(1, 10 ** 9) * max(1, abs(f)):
        f = r
    return res(f)


def sharp(x):
    f = exact(x)
    return NAN if f is None else res(f)


def onC(S, s):
    """is the scale of the outputs in C (or in B)?"""
    b, c = [max([abs(exact(x) or 0) for x in flat(M)] + [0]) for M in (S.B, S.C)]
    lim = Fraction(2) ** (s // 2)
    return c < lim if s < 0 else c > lim or b <= lim


def obs(S, f, s=0):
    g = (lambda x: snap(x, s)) if s else f
    n = type(S).__name__
    if n in ("dSS", "dSSmp"):
        k = not s or onC(S, s)
        return {"k": "ss", "mp": int(n == "dSSmp"), "A": mat(S.A, f), "B": mat(S.B, f if k else g), "C": mat(S.C, g if k else f), "D": mat(S.D, g),
                "size": [int(S.n), int(S.p), int(S.q)]}
    if n in ("dTF", "dTFmp"):
        return {"k": "tf", "mp": int(n == "dTFmp"), "num": [g(x) for x in flat(S.num)], "den": [f(x) for x in flat(S.den)], "order": int(S.order)}
    return {"k": n, "mp": 0}


def flat(M):
    if hasattr(M, "rows"):
        return [M[i, j] for i in range(M.rows) for j in range(M.cols)]
    import numpy as np
    return list(np.asarray(M).flatten())


def crc(*ms):
    h = 0
    for M in ms:
        h = zlib.crc32(repr([(M.rows, M.cols) if hasattr(M, "rows") else M.shape] + [str(exact(x)) for x in flat(M)]).encode(), h)
    return h & 0x3fffffff


def fp(S):
    return crc(S.A, S.B, S.C, S.D) if hasattr(S, "A") else crc(S.num, S.den)


def sel(idx, form):
    if form == "int":
        return int(idx[0])
    if form == "slice":
        return slice(int(idx[0]), int(idx[-1]) + 1)
    return list(idx)


SC = {"int": int, "float": float, "np": lambda x: __import__("numpy").float64(x)}
BADV = {"str": "abc", "list": [1.0, 2.0], "none": None}


def apply_(o, heap, args):
    import mpmath
    from fixif.LTI import dSS, dTF, dSSmp, dTFmp, Filter
    w = o["op"]
    if w == "newss":
        m = [tmat(o[k], o["mp"]) for k in "ABCD"]
        args.extend(m)
        return (dSSmp if o["mp"] else dSS)(*m)
    if w == "newtf":
        def vec(s):
            x = [tok(t) for t in s]
            if o["mp"]:
                return mpmat([x], 1, len(x)) if o["row"] else mpmat([[y] for y in x], len(x), 1)
            return npm([x], 1, len(x))
        m = [vec(o["num"]), vec(o["den"])]
        args.extend(m)
        return (dTFmp if o["mp"] else dTF)(*m)
    a = heap[o["i"] - 1]
    if w in ("mul", "add", "sub"):
        b = heap[o["j"] - 1]
        return a * b if w == "mul" else a + b if w == "add" else a - b
    if w == "neg":
        return -a
    if w in ("smul", "rsmul", "sadd", "rsadd", "ssub", "rssub"):
        x = SC[o["t"]](o["x"])
        return {"smul": lambda: a * x, "rsmul": lambda: x * a, "sadd": lambda: a + x, "rsadd": lambda: x + a,
                "ssub": lambda: a - x, "rssub": lambda: x - a}[w]()
    if w == "badop":
        x = BADV[o["v"]]
        return {"mul": lambda: a * x, "rmul": lambda: x * a, "add": lambda: a + x, "radd": lambda: x + a,
                "sub": lambda: a - x, "rsub": lambda: x - a}[o["w"]]()
    if w == "pick":
        return a[sel(o["outs"], o["fo"]), sel(o["ins"], o["fi"])]
    if w == "simplify":
        return a.simplify()
    if w == "simil":
        T = npm(o["T"]["e"], o["T"]["r"], o["T"]["c"])
        args.append(T)
        a.similarity(T)
        return a
    if w == "conv":
        to = o["to"]
        isS = hasattr(a, "A")
        if to == "badform":
            return a.to_dSS("controllable")
        if to in ("ctrl", "obs"):
            return a.to_dSS(to)
        if to == "filter":
            F = Filter(ss=a) if isS else Filter(tf=a)
            return F.dTF if isS else F.dSS
        if to == "mp":
            return a.to_dSSmp() if isS else a.to_dTFmp()
        if to == "double":
            return a.to_dSS() if isS else a.to_dTF()
        if to == "ss":
            return a.to_dSSmp()
        if to == "tf":
            if type(a).__name__ == "dSSmp":
                return a.to_dTFmp(o["prec"]) if o["prec"] else a.to_dTFmp()
            return a.to_dTF()
    raise AssertionError(w)


def replay(case):
    import mpmath
    f = snap if case.get("snap") else sharp
    mpmath.mp.prec = case.get("prec", 53)
    heap, args, tr = [], [], [{"ev": "begin"}]
    for o in case["h"]:
        if o["op"] == "prec":
            mpmath.mp.prec = o["v"]
            continue
        e = {"ev": "op", "o": o, "got": "ok"}
        try:
            x = apply_(o, heap, args)
        except Exception as ex:
            e["got"], e["what"] = "raise", "%s: %s" % (type(ex).__name__, str(ex)[:100])
            x = None
        if e["got"] == "ok":
            e["obs"] = obs(x, f, case.get("scale", 0))
            if o["op"] != "simil":
                if e["obs"]["k"] not in ("ss", "tf"):
                    e["objs"], e["args"] = [fp(S) for S in heap], [crc(m) for m in args]
                    tr.append(e)
                    break
                heap.append(x)
        e["objs"], e["args"] = [fp(S) for S in heap], [crc(m) for m in args]
        tr.append(e)
    mpmath.mp.prec = 53
    return tr


GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
Profile = "%s"
MaxLen = %d
OrderCap = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nClauses <- All\n"


def keyf(case, e, clauses):
    o = e.get("o", {})
    return "%s/%s/%s" % (o.get("op", e["ev"]), o.get("to", o.get("t", "")), "+".join(clauses))
