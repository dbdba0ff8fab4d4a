"""C04: generated C code computes the realization, in every history of runs"""
import os, stat
import sifdrv as sd
from common import npmat

CRUN = "SPECIFICATION Spec\nCONSTANTS MaxObj = %d\nMaxVer = %d\nUniquePath = TRUE\nResetProg = TRUE\nCheckRc = TRUE\nPROPERTY Coherent\nINVARIANT Kept\nCONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n"
ALGO = "SPECIFICATION Spec\nCONSTANTS P = 2\nMDims <- %s\nINVARIANT OK\nCHECK_DEADLOCK FALSE\n"


def redirect():
    """the code is generated in the current (scratch) folder"""
    import fixif.SIF.Realization_implementation as ri
    d = os.path.join(os.getcwd(), "code_%d" % os.getpid()) + "/"
    os.makedirs(d, exist_ok=True)
    if hasattr(ri, "GENERATED_PATH"):
        ri.GENERATED_PATH = d


def history(case):
    redirect()
    return sd.replay(case, final=("crun", "ccode"))


def failing(case):
    """a compiler that fails: no outputs; then one that works"""
    import random
    redirect()
    rng = random.Random(case["seed"])
    from fixif.SIF import Realization
    tr = [{"ev": "begin"}]
    h = case["hist"][0]
    mk = lambda: Realization(None, tuple(npmat(h["z"]["PP" if b == "P" else b], h["sc"]) for b in sd.BLOCKS))
    R = sd.attempt(tr, mk, "constructor")
    if R is None:
        return tr
    path = os.environ["PATH"]
    d = os.path.join(os.getcwd(), "nocc_%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    with open(d + "/cc", "w") as f:
        f.write("#!/bin/sh\necho 'error' >&2\nexit 1\n")
    os.chmod(d + "/cc", 0o755)
    if case["warm"]:
        # another realization has been compiled before
        sd.attempt(tr, lambda: mk().runCdouble(npmat({"r": R.q, "c": 1, "e": [[1]] * R.q})), "runCdouble")
    os.environ["PATH"] = d + ":" + path
    for _ in range(2):
        try:
            R.runCdouble(npmat({"r": R.q, "c": 2, "e": [[1, 0]] * R.q}))
            got = "outputs"
        except Exception as e:
            got = type(e).__name__
        tr.append({"ev": "cfail", "got": got})
    os.environ["PATH"] = path
    tr.append(dict(h))
    x = sd.attempt(tr, lambda: sd.observe(R, h["id"], "crun", rng, h["sc"]), "runCdouble")
    if x:
        tr.append(x)
    return tr


def run(ctx):
    ctx.mc("CRun", CRUN % ctx.scale((3, 5), (3, 7)))
    for k in ("UniquePath", "ResetProg"):
        ctx.broken("CRun", CRUN.replace("%s = TRUE" % k, "%s = FALSE" % k) % (2, 4), "%s = FALSE" % k)
    ctx.mc("MCAlgo", ALGO % ctx.scale("DQ", "D22"))
    more = "ReadKinds <- CodeReads\n"
    h = ctx.gen("GenSIFObj", sd.gencfg(maxobj=3, lower="TRUE", dims="CodeDims", mats="CodeMats", more=more, ops=["set", "setZ", "read", "quant", "new"], maxops=9),
                num=ctx.scale(500, 4000))
    cs = sd.cases(h, ctx.rng, cls=("Real",))
    ctx.judge("SIFTrace", cs, ctx.drive(history, cs), sd.TRACECFG, keyf=sd.keyf)
    h = ctx.gen("GenSIFObj", sd.gencfg(lower="TRUE", dims="CodeDims", mats="CodeMats", more=more, ops=["read"], maxops=1, scales="S3", unit=8), num=ctx.scale(150, 1200))
    cs = sd.cases(h, ctx.rng, cls=("Real",))
    ctx.judge("SIFTrace", cs, ctx.drive(history, cs), sd.TRACECFG, keyf=sd.keyf)
    cs = [{"name": "failed compilation", "hist": x[:1], "warm": k % 2, "seed": k} for k, x in enumerate(h[:ctx.scale(24, 100)])]
    ctx.judge("SIFTrace", cs, ctx.drive(failing, cs), sd.TRACECFG, keyf=sd.keyf)
