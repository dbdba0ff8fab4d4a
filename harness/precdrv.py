"""histories of GenPrec: the working precision around every public function that computes with multiprecision numbers"""
import os, random, tempfile, shutil
from ltidrv import mpmat, npm, to_mpf


class Fault(Exception):
    pass


PATCHED = ["fmul", "fadd", "fsub", "fdiv", "fneg", "log", "ceil", "floor", "power", "nsum", "fsum", "fdot", "mpmathify", "isnan", "isinf", "convert", "almosteq"]


class Faults:
    """the k-th call of a function of the underlying libraries fails"""
    def __init__(self, k):
        self.k = k

    def __enter__(self):
        import mpmath, sys, numpy as np
        import stubs
        self.undo = []
        if not self.k:
            return self
        left = [self.k]

        def wrap(f):
            def g(*a, **kw):
                left[0] -= 1
                if left[0] == 0:
                    raise Fault("injected")
                return f(*a, **kw)
            return g
        pairs = {}
        for n in PATCHED:
            f = getattr(mpmath, n, None)
            if f is not None:
                pairs[id(f)] = (f, wrap(f))
        for m in (sys.modules.get("fixif.WCPG"),):
            for n in ("WCPG_ABCD", "WCPG_TF"):
                f = getattr(m, n, None)
                if f is not None:
                    pairs[id(f)] = (f, wrap(f))
        mods = [m for n, m in list(sys.modules.items()) if m is not None and (n == "mpmath" or n == "fixif" or n.startswith("fixif."))]
        for m in mods:
            for n, v in list(vars(m).items()):
                p = pairs.get(id(v))
                if p is not None and p[0] is v:
                    self.undo.append((m, n, v))
                    setattr(m, n, p[1])
        return self

    def __exit__(self, *a):
        for m, n, v in self.undo:
            setattr(m, n, v)
        return False


class Args:
    """arguments of a given kind, drawn from a seed"""
    def __init__(self, kind, seed, tmp):
        self.kind, self.r, self.tmp = kind, random.Random(seed), tmp

    def num(self):
        return self.r.choice([0, 1, -1, 2, 0.5, -0.25, 3])

    def m(self, r, c, mp=True, bad=True):
        k = self.kind if bad else "ok"
        if k == "empty":
            r = c = 0
        if k == "size":
            c += 1
        rows = [[self.num() for _ in range(c)] for _ in range(r)]
        if k == "type":
            return self.r.choice([rows, "abc", None, 3])
        M = (mpmat if mp else npm)(rows, r, c)
        if k == "nonfinite" and r and c:
            M[self.r.randrange(r), self.r.randrange(c)] = float(self.r.choice(["inf", "nan"]))
        if k == "complex" and r and c and mp:
            import mpmath
            M[self.r.randrange(r), self.r.randrange(c)] = mpmath.mp.mpc(1, 1)
        return M

    def abcd(self, mp=True, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3]) if n is None else n
        p, q = (2, 2) if self.kind == "mimo" else (1, 1)
        k = self.kind
        s = r.choice("ABCD")
        d = {"A": (n, n), "B": (n, q), "C": (p, n), "D": (p, q)}
        out = [self.m(d[x][0], d[x][1], mp, bad=(x == s and k not in ("empty",))) for x in "ABCD"]
        if k not in ("unstable", "size", "type") and s != "A":
            for i in range(n):
                for j in range(n):
                    out[0][i, j] = (0.5 if i == j else 0 if j > i else out[0][i, j])
        return out

    def ss(self, mp=True):
        from fixif.LTI import dSS, dSSmp
        return (dSSmp if mp else dSS)(*self.abcd(mp))

    def tf(self, mp=True):
        from fixif.LTI import dTF, dTFmp
        n = self.r.choice([0, 1, 2, 3])
        num, den = self.m(1, n + 1, mp, bad=False), self.m(1, n + 1, mp, bad=self.kind in ("nonfinite", "complex", "type"))
        if self.kind == "unstable" or self.kind == "type":
            return (dTFmp if mp else dTF)(num, den)
        den[0, 0] = 0 if self.kind == "size" else self.r.choice([1, 1, 3, -2])
        for i in range(1, n + 1):
            den[0, i] = den[0, i] * 0.125
        return (dTFmp if mp else dTF)(num, den)

    def real(self):
        from fixif.LTI import Filter
        from fixif.Structures import State_Space, DFI, DFII
        ss = Args("mimo" if self.kind == "mimo" else "unstable" if self.kind == "unstable" else "ok", self.r.random(), self.tmp)
        from fixif.LTI import dSS
        A, B, C, D = ss.abcd(False, n=self.r.choice([1, 2]))
        D[0, 0] = 1
        return State_Space(Filter(ss=dSS(A, B, C, D)))


def _iter(g, k=2):
    for _ in range(k):
        next(g)


def table():
    import mpmath, numpy as np
    from fixif import func_aux as fa
    from fixif import LTI
    from fixif.LTI import dSS, dTF, dSSmp, dTFmp, Filter

    def real_fn(w):
        def f(a):
            R = a.real()
            ub = npm([[1.0]] * R.q, R.q, 1) if a.kind not in ("size", "type") else (npm([[1.0]] * 5, 5, 1) if a.kind == "size" else "abc")
            if a.kind == "nonfinite":
                ub = npm([[float("nan")]] * R.q, R.q, 1)
            if a.kind == "empty":
                ub = ub * 0
            ep = npm([[0.01]] * R.p, R.p, 1)
            return {"msb": lambda: R.computeNaiveMSB(ub), "wt": lambda: R._w_tilde(ub), "uwl": lambda: R.optimalUniformWL(ub, ep),
                    "wl": lambda: R.optimalWL(ub, ep, AMPLpath=a.tmp), "exact": lambda: R.to_dSSexact(), "q": lambda: R.quantize(8 if a.kind == "ok" else -1)}[w]()
        return f

    def sim(exact, x0):
        def f(a):
            S = Args("ok" if a.kind in ("size", "type", "nonfinite", "complex", "empty") else a.kind, 5, a.tmp).ss()
            mp = bool(a.r.randrange(2))
            return S.simulate(a.m(S.q, 3, mp) if not (a.kind == "size") else a.m(S.q + 1, 3, mp), exact=exact, **({"x0": a.m(S.n, 1, mp)} if x0 else {}))
        return f

    def M2(g):
        return lambda a: g(a.m(2, 2, bool(a.r.randrange(2))), a.m(2, 2, True, bad=False))

    def lt(a, mp=True):
        L = a.m(3, 3, mp)
        if a.kind in ("ok", "nonfinite"):
            for i in range(3):
                for j in range(i, 3):
                    L[i, j] = 1 if i == j else 0
        return L

    T = [
        ("fadd", M2(fa.mpf_matrix_fadd)), ("fsub", M2(fa.mpf_matrix_fsub)), ("fmul", M2(fa.mpf_matrix_fmul)),
        ("lt_inverse", lambda a: fa.mpf_matrix_lt_inverse(lt(a))), ("lt_inverse np", lambda a: fa.mpf_matrix_lt_inverse(lt(a, False))),
        ("poly_mult", lambda a: fa.mpf_poly_mult(a.m(3, 1), a.m(2, 1, bad=False))),
        ("poly_product", lambda a: fa.mp_poly_product([mpmath.mp.mpf(a.num()) for _ in range(0 if a.kind == "empty" else 3)] if a.kind != "type" else "ab", a.r.choice([-1, 0, 1]))),
        ("python2mpf", lambda a: fa.python2mpf_matrix(a.m(2, 3, False))), ("to_numpy", lambda a: fa.mpf_to_numpy(a.m(2, 3))),
        ("to_numpy scalar", lambda a: fa.mpf_to_numpy(mpmath.mp.mpf(3) if a.kind == "ok" else "x")),
        ("representation", lambda a: fa.mpf_get_representation(a.m(1, 1)[0, 0])), ("matrix representation", lambda a: fa.mpf_matrix_get_representation(a.m(2, 2))),
        ("get_real", lambda a: fa.mpc_get_real(a.m(2, 2))), ("to_sollya", lambda a: fa.mpf_matrix_to_sollya(a.m(2, 2))),
        ("MPFMatrix", lambda a: fa.MPFMatrix(a.m(2, 2, bool(a.r.randrange(2))))),
        ("MPF add_exact", lambda a: fa.MPFMatrix(a.m(2, 2)).add_exact(fa.MPFMatrix(a.m(2, 2, bad=False)))),
        ("MPF sub_exact", lambda a: fa.MPFMatrix(a.m(2, 2)).sub_exact(fa.MPFMatrix(a.m(2, 2, bad=False)))),
        ("MPF mul_exact", lambda a: fa.MPFMatrix(a.m(2, 2)).mul_exact(fa.MPFMatrix(a.m(2, 2, bad=False)))),
        ("MPF mul", lambda a: fa.MPFMatrix(a.m(2, 2)) * a.m(2, 2, False, bad=False)),
        ("MPF inv", lambda a: fa.MPFMatrix(lt(a)).inv_lowtr()), ("MPF to_numpy", lambda a: fa.MPFMatrix(a.m(2, 2)).to_numpy()),
        ("MPF repr", lambda a: fa.MPFMatrix(a.m(2, 2)).get_int_representation()), ("MPF equal", lambda a: fa.MPFMatrix(a.m(2, 2)).equal(a.m(2, 2, bad=False))),
        ("MPF close", lambda a: fa.MPFMatrix(a.m(2, 2)).almost_close(a.m(2, 2, bad=False))), ("MPF to_sollya", lambda a: fa.MPFMatrix(a.m(2, 2)).to_sollya()),
        ("dSSmp", lambda a: a.ss()), ("dSSmp np", lambda a: dSSmp(*a.abcd(False))), ("dSSmp str", lambda a: str(a.ss())),
        ("dSSmp add", lambda a: a.ss() + a.ss()), ("dSSmp sub", lambda a: a.ss() - a.ss()), ("dSSmp sub dSS", lambda a: a.ss() - a.ss(False)),
        ("dSSmp.to_dSS", lambda a: a.ss().to_dSS()), ("dSSmp.to_dTFmp", lambda a: a.ss().to_dTFmp()), ("dSSmp.to_dTFmp 200", lambda a: a.ss().to_dTFmp(200)),
        ("dSSmp.to_dTFmp bad", lambda a: a.ss().to_dTFmp(a.r.choice(["a", None, []]))), ("dSSmp.to_dTFmp 30", lambda a: a.ss().to_dTFmp(30)),
        ("simulate", sim(True, False)), ("simulate x0", sim(True, True)), ("simulate rounded", sim(False, False)), ("simulate rounded x0", sim(False, True)),
        ("simulate_rounded", lambda a: a.ss().simulate_rounded(a.m(1, 3))), ("WCPGmp", lambda a: a.ss().WCPGmp()),
        ("dTFmp", lambda a: a.tf()), ("dTFmp.to_dTF", lambda a: a.tf().to_dTF()), ("dTFmp.to_dSSmp", lambda a: a.tf().to_dSSmp()), ("dTFmp.to_Sollya", lambda a: a.tf().to_Sollya()),
        ("dTFmp str", lambda a: str(a.tf())), ("there and back", lambda a: a.tf().to_dSSmp().to_dTFmp().to_dSSmp()),
        ("dSS.to_dSSmp", lambda a: a.ss(False).to_dSSmp()), ("dSS.to_dTF", lambda a: a.ss(False).to_dTF()), ("dTF.to_dTFmp", lambda a: a.tf(False).to_dTFmp()),
        ("dTF.to_dSS", lambda a: a.tf(False).to_dSS()), ("dTF.to_Sollya", lambda a: a.tf(False).to_Sollya()), ("dTF.WCPG", lambda a: a.tf(False).WCPG()),
        ("dSS.WCPG", lambda a: a.ss(False).WCPG()), ("dSS.H2norm", lambda a: a.ss(False).H2norm), ("Filter", lambda a: Filter(ss=a.ss(False)).dTF),
        ("MSB", real_fn("msb")), ("MSB again", real_fn("msb")), ("w_tilde", real_fn("wt")), ("w_tilde again", real_fn("wt")), ("uniform WL", real_fn("uwl")), ("uniform WL again", real_fn("uwl")),
        ("WL", real_fn("wl")), ("to_dSSexact", real_fn("exact")), ("quantize", real_fn("q")),
    ]
    for n in ("random_dSSmp", "random_dTFmp"):
        f = getattr(LTI, n, None)
        if f:
            T.append((n, (lambda f: lambda a: f(*((3, 1, 1) if "SS" in f.__name__ else (2 if a.kind == "type" else (2, 4),))))(f)))
    for n in ("iter_random_dSSmp", "iter_random_dTFmp"):
        f = getattr(LTI, n, None)
        if f:
            T.append((n, (lambda f: lambda a: _iter(f(3) if "TF" in f.__name__ else f(3, n=(2, 3), p=(1, 2), q=(1, 2))))(f)))
    return T


NFN = 70


def replay(case):
    import mpmath, numpy as np, signal
    T = table()
    mpmath.mp.prec = case.get("prec", 53)
    tr = [{"ev": "begin"}, {"ev": "prec", "v": mpmath.mp.prec}]
    tmp = tempfile.mkdtemp(prefix="verif_prec_")
    try:
        for o in case["h"]:
            if o["op"] == "prec":
                mpmath.mp.prec = o["v"]
                tr.append({"ev": "prec", "v": o["v"]})
                continue
            name, f = T[(o["fn"] - 1) % len(T)]
            a = Args(o["kind"], o["seed"], tmp)
            np.random.seed(o["seed"])
            e = {"ev": "call", "o": o, "name": name, "before": mpmath.mp.prec, "got": "return"}
            try:
                with Faults(o["fault"]):
                    f(a)
            except Exception as ex:
                e["got"], e["what"] = "raise", "%s: %s" % (type(ex).__name__, str(ex)[:80])
            e["after"] = mpmath.mp.prec
            tr.append(e)
    finally:
        mpmath.mp.prec = 53
        shutil.rmtree(tmp, ignore_errors=True)
    return tr


GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
NFn = %d
MaxLen = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\n"


def keyf(case, e, clauses):
    return "%s/%s" % (e.get("name", e["ev"]), "+".join(clauses))
