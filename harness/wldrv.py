"""MSBs and word-lengths of the real Realization for the problems of GenWl"""
import os, random, re, tempfile
from fractions import Fraction
from common import exact
from anadrv import dy, dym

GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nBaseBits = 12\n"
SC = {"J": "sJ", "K": "sK", "L": "sC", "M": "sK", "N": "sB", "PP": "sA", "Q": "sB", "R": "sC", "S": "sS"}


def param(text, name):
    """value of a parameter in an AMPL data file: number, list, or table"""
    m = re.search(r"param\s+%s\s*(?::([^:=;]*))?:=([^;]*);" % name, text)
    if not m:
        raise ValueError("no param %s" % name)
    num = lambda s: 10 ** 9 if s.lower() in ("infinity", "inf") else Fraction(s)
    v = m.group(2).split()
    if m.group(1) is not None:
        cols = [int(x) for x in m.group(1).split()]
        k = len(cols) + 1
        rows = [v[i:i + k] for i in range(0, len(v), k)]
        if cols != list(range(1, k)) or [int(r[0]) for r in rows] != list(range(1, len(rows) + 1)):
            raise ValueError("indices")
        return [[num(x) for x in r[1:]] for r in rows]
    if len(v) == 1:
        return num(v[0])
    if [int(x) for x in v[::2]] != list(range(1, len(v) // 2 + 1)):
        raise ValueError("indices of %s: %s" % (name, v[::2]))
    return [num(x) for x in v[1::2]]


def ampl(path, p):
    t = open(path).read()
    lst = lambda x: x if isinstance(x, list) else [x]
    E = lst(param(t, "E"))
    if not isinstance(E[0], list):
        E = [E] if p == 1 else [[x] for x in E]
    return {"p": int(param(t, "p")), "np": int(param(t, "np")), "wmax": [int(x) for x in lst(param(t, "u"))],
            "feps": [fdy(x) for x in lst(param(t, "eps"))], "E": [[fdy(x) for x in r] for r in E], "wt": [int(x) for x in lst(param(t, "wtilde"))]}


def fdy(x):
    """the double nearest to a decimal number"""
    return dy(float(x))


def replay(case):
    import numpy as np
    import stubs
    from fixif.SIF import Realization
    h, rng = case["h"], random.Random(case["seed"])
    M = {}
    for b, s in SC.items():
        M[b] = np.matrix(np.array(h["z"][b]["e"], dtype=float).reshape(h["z"][b]["r"], h["z"][b]["c"]) / 2.0 ** h["z"][s])
    R = Realization(None, tuple(M[b] for b in ("J", "K", "L", "M", "N", "PP", "Q", "R", "S")))
    l, n, p, q = M["J"].shape[0], M["PP"].shape[0], M["S"].shape[0], M["S"].shape[1]
    u = np.matrix([[x[0] / 2.0 ** x[1]] for x in h["u"]])
    if case.get("only") == "msb":
        u = u * 2.0 ** (300 * h["sc"]) * (1 + h["near"] * 2.0 ** -(51 if q == 1 else 46))
    else:
        u = u * 2.0 ** (20 * h["sc"]) * (1 + h["near"] * 2.0 ** -30)
    tr = [{"ev": "begin"}, {"ev": "sif", "z": {b: dym(M[b]) for b in M}, "u": dym(u)}]
    vec = lambda e: np.matrix([[x] for x in e])

    def call(ev, o, f):
        e = {"ev": ev, "o": o, "got": "ok"}
        try:
            e.update(f())
        except Exception as ex:
            e["got"], e["what"] = type(ex).__name__, str(ex)[:150]
        tr.append(e)

    def ints(x):
        x = [exact(v) for v in np.asarray(x).flatten().tolist()]
        if any(v is None or v.denominator != 1 for v in x):
            raise ValueError("not integers")
        return [int(v) for v in x]

    def edge(i, k, mode):
        """an error bound met with equality at k bits"""
        H, E = R.Hzeta, R.Hepsilon
        zs = [Fraction(float(x)) for x in np.asarray(stubs.WCPG_value(H.A, H.B, H.C, H.D) * u).flatten()]
        g = [Fraction(float(x)) for x in np.asarray(stubs.WCPG_value(E.A, E.B, E.C, E.D))[i - 1]]
        tot = Fraction(0)
        for gj, z in zip(g, zs):
            m = -200
            while Fraction(2) ** m < z:
                m += 1
            d = mode if z > Fraction(2) ** m - Fraction(2) ** (m - k + 1) else 0
            tot += gj * Fraction(2) ** (m + d - k)
        return [float(tot) if a == i - 1 else 1024. for a in range(p)]
    call("msb", {}, lambda: {"m": ints(R.computeNaiveMSB(u.copy()))})
    if case.get("only") == "msb":
        call("msb", {}, lambda: {"m": ints(R.computeNaiveMSB(2 * u, {}))})
        tr.insert(len(tr) - 1, {"ev": "u", "u": dym(2 * u)})
        return tr
    todo = [[x[0] / 2.0 ** x[1] for x in e] for e in h["eps"]]
    for i, k, mode in h["edge"]:
        try:
            todo.append(edge(i, k, mode))
        except Exception:
            pass
    for e in todo:
        call("uwl", {}, lambda: {"w": ints([R.optimalUniformWL(u.copy(), vec(e))])[0]})
        tr[-1]["eps"] = [dy(x) for x in e]
    with tempfile.TemporaryDirectory() as tmp:
        for e in todo[:1] + todo[-1:]:
            def wl():
                a = {"AMPLfilename": "a%d.dat" % rng.randrange(9)} if rng.random() < 0.7 else {}
                w = R.optimalWL(u.copy(), vec(e), AMPLpath=tmp, wmax=h["wmax"], **a)
                d = ampl(os.path.join(tmp, a.get("AMPLfilename", "xmpl.dat")), p)
                d["w"] = ints(w)
                return d
            call("wl", {"wmax": h["wmax"]}, wl)
            tr[-1]["eps"] = [dy(x) for x in e]
    call("msb", {}, lambda: {"m": ints(R.computeNaiveMSB(u.copy(), {}))})
    # other bounds on the inputs, for the same realization
    u = u * rng.choice([0.375, 2.5, 5])
    tr.append({"ev": "u", "u": dym(u)})
    e = rng.choice(todo)
    call("uwl", {}, lambda: {"w": ints([R.optimalUniformWL(u.copy(), vec(e))])[0]})
    tr[-1]["eps"] = [dy(x) for x in e]
    return tr


def keyf(case, e, clauses):
    return "%s/%s/%s" % (e["ev"], "+".join(clauses), "" if e["got"] == "ok" else e["got"])
