"""
fixif.WCPG and fixif.FxP are separate projects of the same authors and are not installed here.
These stand-ins implement the part of their interface fixif uses, from their documentation:
 - WCPG_ABCD(A, B, C, D): |D| + sum_k |C A^k B|         (worst case peak gain)
 - WCPG_TF(num, den)
 - Constant(x, wl, signed): round-to-nearest of x on wl bits, two's complement
 - FPF(msb, lsb): fixed-point format
They are loaded only when the real packages are absent.
"""
import sys, types, math
from fractions import Fraction

calls = []          # calls made to the WCPG stand-in (name, arguments)


def _wcpg(A, B, C, D):
    import numpy as np
    A, B, C, D = [np.matrix(x, dtype=float) for x in (A, B, C, D)]
    W = abs(D).copy()
    X = B.copy()
    small = 0
    for _ in range(20000):
        T = abs(C * X)
        W = W + T
        X = A * X
        if not np.any(X):
            break
        small = small + 1 if np.max(np.asarray(T), initial=0.) <= 1e-18 * max(1., np.max(np.asarray(W), initial=0.)) and np.max(np.asarray(abs(X)), initial=0.) < 1e-14 else 0
        if small > 20:
            break
        if not np.all(np.isfinite(X)) or np.max(np.asarray(abs(X)), initial=0.) > 1e100:
            raise ValueError("WCPG: unstable system")
    return np.matrix(W)


def WCPG_ABCD(A, B, C, D, output_info=None):
    import numpy as np
    calls.append(("ABCD", [np.array(x, dtype=float, copy=True) for x in (A, B, C, D)]))
    if output_info is not None:
        output_info["N"] = 1
    return _wcpg(A, B, C, D)


def WCPG_value(A, B, C, D):
    """what the library answers (for the oracles: the request is not recorded)"""
    return _wcpg(A, B, C, D)


def WCPG_TF(num, den, output_info=None):
    import numpy as np
    num = np.array(num, dtype=float).flatten()
    den = np.array(den, dtype=float).flatten()
    calls.append(("TF", [num.copy(), den.copy()]))
    n = max(len(num), len(den)) - 1
    num = np.append(num, np.zeros(n + 1 - len(num))) / den[0]
    den = np.append(den, np.zeros(n + 1 - len(den))) / den[0]
    if n == 0:
        return abs(num[0])
    A = np.zeros((n, n)); A[0, :] = -den[1:]
    for i in range(1, n): A[i, i - 1] = 1
    B = np.zeros((n, 1)); B[0, 0] = 1
    C = np.matrix(num[1:] - num[0] * den[1:])
    return float(_wcpg(A, B, C, [[num[0]]])[0, 0])


class FPF(object):
    def __init__(self, wl=None, msb=None, lsb=None, signed=True):
        if msb is None: msb = lsb + wl - 1
        if lsb is None: lsb = msb - wl + 1
        self.msb, self.lsb, self.signed = msb, lsb, signed
        self.wl = msb - lsb + 1

    def LaTeX(self, **kw):
        return "%%FPF(%d,%d) %s" % (self.msb, self.lsb, sorted((k, v) for k, v in kw.items() if v is not None))

    def __eq__(self, o): return (self.msb, self.lsb) == (o.msb, o.lsb)
    def __hash__(self): return hash((self.msb, self.lsb))


def quantized(x, wl):
    """(msb, lsb, mantissa) of the wl-bit two's complement round-to-nearest of the non-zero number x"""
    x = Fraction(x)
    m = math.ceil(math.log2(abs(x)))
    while Fraction(2) ** (m - 1) > abs(x): m -= 1
    while Fraction(2) ** m < abs(x): m += 1
    if x > 0 and x == Fraction(2) ** m: m += 1          # 2^m itself is not representable with msb m
    for msb in (m, m + 1):
        lsb = msb - wl + 1
        k = math.floor(x / Fraction(2) ** lsb + Fraction(1, 2))
        if -2 ** (wl - 1) <= k <= 2 ** (wl - 1) - 1:
            return msb, lsb, k
    return m, m - wl + 1, -2 ** (wl - 1) if x < 0 else 2 ** (wl - 1) - 1


class Constant(object):
    def __init__(self, value, wl=None, signed=True, **kw):
        self.value = value
        if wl is None: wl = 64
        if value == 0:
            msb, lsb, k = 0, 1 - wl, 0
        else:
            msb, lsb, k = quantized(value, wl)
        self.FPF = FPF(msb=msb, lsb=lsb)
        self.mantissa = k
        self.approx = float(Fraction(k) * Fraction(2) ** lsb)
        self.wl = wl


def install():
    """put the stand-ins in sys.modules (unless the real packages can be imported)"""
    import fixif
    try:
        import fixif.WCPG
    except ImportError:
        w = types.ModuleType("fixif.WCPG")
        w.WCPG_ABCD, w.WCPG_TF = WCPG_ABCD, WCPG_TF
        sys.modules["fixif.WCPG"] = w
        fixif.WCPG = w
    try:
        import fixif.FxP
    except ImportError:
        f = types.ModuleType("fixif.FxP")
        c = types.ModuleType("fixif.FxP.Constant")
        f.__path__ = []
        c.Constant = Constant
        f.Constant, f.FPF = Constant, FPF
        sys.modules["fixif.FxP"] = f
        sys.modules["fixif.FxP.Constant"] = c
        fixif.FxP = f
