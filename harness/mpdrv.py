"""histories of GenMP replayed on fixif.func_aux"""
from common import mat, exact, res
from ltidrv import tok, to_mpf, mpmat, npm, sharp, crc, flat, NAN

AMPLE = 30000


def make(o):
    import numpy as np, mpmath
    from fixif.func_aux import MPFMatrix
    M = o["M"]
    rows = [[tok(x) for x in y] for y in M["e"]]
    viamp = o["f"] == "mp" or (o["f"] == "MPF" and o["from"] == "mpm")
    x = (mpmat if viamp else npm)(rows, M["r"], M["c"])
    if o["sp"]:
        x[0, 0] = {"inf": mpmath.mp.inf if viamp else np.inf, "nan": mpmath.mp.nan if viamp else np.nan,
                   "cplx": mpmath.mp.make_mpc((to_mpf(rows[0][0])._mpf_, to_mpf(1)._mpf_)) if viamp else np.nan}[o["sp"]]
    if o["f"] != "MPF":
        return x
    if o["from"] == "ndarray":
        x = np.asarray(x)
    y = MPFMatrix(x)
    # the caller goes on using its own matrix
    if x.shape[0] and x.shape[1] if hasattr(x, "shape") else x.rows and x.cols:
        x[0, 0] = 12345
    return y


def form(x):
    import numpy as np, mpmath
    from fixif.func_aux import MPFMatrix
    return "MPF" if isinstance(x, MPFMatrix) else "mp" if isinstance(x, mpmath.matrix) else "np" if isinstance(x, np.matrix) else type(x).__name__


def raw(x):
    return x.matrix if form(x) == "MPF" else x


def shape(x):
    return tuple(x.shape) if hasattr(x, "shape") else (x.rows, x.cols)


def val(x):
    m = mat(raw(x), sharp)
    m["r"], m["c"] = [int(v) for v in shape(x)]
    return m


def fp(x):
    import numpy as np
    r = raw(x)
    import zlib
    return zlib.crc32(repr((form(x), shape(x), [str(exact(v)) if exact(v) is not None else str(getattr(v, "_mpc_", v)) for v in flat(r)])).encode()) & 0x3fffffff


def apply_(o, h):
    import mpmath
    from fixif import func_aux as fa
    w = o["op"]
    if w == "new":
        return make(o)
    if w == "prod":
        p = [to_mpf(tok(t)) for t in o["s"]]
        if o["i"] % 2 and p:
            p = mpmat([[tok(t)] for t in o["s"]], len(p), 1)
        return fa.mp_poly_product(p) if o["skip"] == 0 else fa.mp_poly_product(p, o["skip"] - 1)
    a, b = h[o["i"] - 1], h[o["j"] - 1]
    F = form(a)
    if w in ("add", "sub", "mul"):
        if F == "MPF":
            return getattr(a, w + "_exact")(b)
        return {"add": fa.mpf_matrix_fadd, "sub": fa.mpf_matrix_fsub, "mul": fa.mpf_matrix_fmul}[w](a, b)
    if w == "inv":
        return a.inv_lowtr() if F == "MPF" else fa.mpf_matrix_lt_inverse(a)
    if w in ("padd", "psub", "pmul"):
        if o["as"] == "mp" and form(b) == "MPF":
            b = b.matrix
        if o["as"] == "np" and form(b) == "np":
            import numpy as np
            b = np.asarray(b)
        return a + b if w == "padd" else a - b if w == "psub" else a * b
    if w == "pbad":
        v = {"float": 2.0, "list": [[1.0]], "str": "abc", "none": None}[o["v"]]
        if F != "MPF":
            f = {"a": fa.mpf_matrix_fadd, "s": fa.mpf_matrix_fsub, "m": fa.mpf_matrix_fmul}[o["w"].lstrip("p")[0]]
            return f(a, v) if o["w"][0] == "p" else f(v, a)
        return {"padd": lambda: a + v, "psub": lambda: a - v, "pmul": lambda: a * v, "add": lambda: a.add_exact(v), "sub": lambda: a.sub_exact(v), "mul": lambda: a.mul_exact(v)}[o["w"]]()
    if w == "equal":
        return a.equal(b.matrix if o["as"] == "mp" else b)
    if w == "poly":
        return fa.mpf_poly_mult(a, b)
    if w == "tomp":
        return fa.python2mpf_matrix(a)
    if w == "tonp":
        return a.to_numpy() if F == "MPF" else fa.mpf_to_numpy(a)
    if w == "repr":
        return a.get_int_representation() if F == "MPF" else fa.mpf_matrix_get_representation(a)
    if w == "entry":
        x = a[o["r"] - 1, o["c"] - 1]
        y, n = fa.mpf_get_representation(x)
        return x, y, n, fa.mpf_to_numpy(x)
    if w == "real":
        return fa.mpc_get_real(a)
    if w == "wrap":
        return fa.MPFMatrix(a)
    if w == "poke":
        a[o["r"] - 1, o["c"] - 1] = o["x"]
        return None
    raise AssertionError(w)


def obs(o, x):
    w = o["op"]
    if w == "repr":
        Y, N = x
        return {"Y": mat(Y, lambda v: res(int(v))), "N": mat(N, int)}
    if w == "entry":
        return {"item": sharp(x[0]), "y": res(int(x[1])), "n": int(x[2]), "d": sharp(x[3])}
    if w == "equal":
        return {"eq": int(bool(x))}
    if w in ("poke", "pbad"):
        return {}
    return {"f": form(x), "m": val(x)}


def replay(case):
    import mpmath
    from fixif import func_aux
    mpmath.mp.prec = case.get("prec", 53)
    h, tr = [], [{"ev": "begin"}]
    for o in case["h"]:
        if o["op"] == "prec":
            mpmath.mp.prec = o["v"]
            continue
        e = {"ev": "op", "o": o, "got": "ok", "kept": 0}
        p = mpmath.mp.prec
        if o["op"] in ("padd", "psub", "pmul", "poly", "prod"):
            mpmath.mp.prec = AMPLE
        pr = mpmath.mp.prec
        try:
            x = apply_(o, h)
        except Exception as ex:
            e["got"], e["what"], x = "raise", "%s: %s" % (type(ex).__name__, str(ex)[:100]), None
        e["prec"] = [pr, mpmath.mp.prec]
        mpmath.mp.prec = p
        stop = False
        if e["got"] == "ok":
            e["obs"] = obs(o, x)
        if o["keep"]:
            if e["got"] == "ok":
                h.append(x)
                e["kept"] = 1
            else:
                stop = True
        e["objs"] = [fp(y) for y in h]
        tr.append(e)
        if stop:
            break
    mpmath.mp.prec = 53
    return tr


GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
MaxLen = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nClauses <- All\n"


def keyf(case, e, clauses):
    o = e.get("o", {})
    return "%s/%s" % (o.get("op", e["ev"]), "+".join(clauses))
