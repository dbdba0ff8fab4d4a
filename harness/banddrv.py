"""gabarits of GenBands on the real class"""
import random, warnings
from anadrv import dy


def replay(case):
    import numpy as np
    from fixif.LTI import Gabarit, random_Gabarit
    warnings.simplefilter("ignore")
    rng = random.Random(case["seed"])
    tr = [{"ev": "begin"}]

    def num(k, d, div=1):
        v = k / d if d != 1 else k
        f = rng.randrange(3)
        return float(v) if f == 0 else np.float64(v) if f == 1 else v

    def band(b):
        return {"F1": dy(float(b.F1)), "F2": dy(float(b.F2)), "w1": dy(float(b.w1)), "w2": dy(float(b.w2)), "pass": int(b.isPassBand is True),
                "pg": [dy(float(x)) for x in b.passGains] if b.passGains is not None else [], "sg": [dy(float(b.stopGain))] if b.stopGain is not None else []}

    def make(g):
        fb, ab = [], []
        for b in g["bs"]:
            f = (num(b["f1"], g["fd"]), None if b["f2"] == -1 else num(b["f2"], g["fd"]))
            fb.append(f if rng.randrange(2) else list(f))
            ab.append(num(b["g"][0], 4) if len(b["g"]) == 1 else (tuple if rng.randrange(2) else list)(num(x, 4) for x in b["g"]))
        if g["drop"] == 1: ab = ab[:-1]
        if g["drop"] == 2: ab = ab + [-10]
        if rng.randrange(2) == 0: fb, ab = tuple(fb), tuple(ab)
        return Gabarit(g["Fs"] or None, fb, ab)
    G = None
    easy = False
    for o in case["h"]:
        w = o["op"]
        e = {"ev": w, "o": o, "got": "ok"}
        try:
            if w == "make":
                easy = o["kind"] == "design"
                G = make(o["g"])
                e["bands"], e["type"] = [band(b) for b in G.bands], G.type
                e["max"] = dy(float(G.maxGain())) if len(G.bands) else dy(0)
            elif w == "random":
                H = random_Gabarit(seed=o["seed"])
                e["bands"], e["type"] = [band(b) for b in H.bands], H.type
            elif G is None:
                continue
            elif w == "design":
                if not easy and G.type != "multiband":
                    continue
                k = {"ftype": o["ftype"]} if o["ftype"] else {}
                if o["margin"]: k["designMargin"] = o["margin"] / 4.0
                if o["centered"]: k["centeredZero"] = True
                T = G.to_dTF(**k)
                e["num"], e["den"] = [dy(float(x)) for x in T.num.flat], [dy(float(x)) for x in T.den.flat]
                e["bands"] = [band(b) for b in G.bands]
            else:
                if not len(G.bands):
                    continue
                i = o["i"] % len(G.bands)
                e["i"] = i + 1
                b = G.bands[i]
                if w == "sub": e["band"] = band(b - num(o["g"], 4))
                elif w == "badsub": b - rng.choice(["a", None, {}])
                elif w == "margin":
                    c = b - 0
                    c.applyDesignMargin(num(o["g"], 4))
                    e["band"] = band(c)
                elif w == "rect":
                    r = b.Rectangle(bool(o["db"]), o["min"])
                    e["rect"] = {"x": dy(float(r.get_x())), "y": dy(float(r.get_y())), "w": dy(float(r.get_width())), "h": dy(float(r.get_height()))}
                e["bands"] = [band(b) for b in G.bands]
        except Exception as ex:
            e["got"], e["what"] = type(ex).__name__, str(ex)[:120]
            if w in ("make",):
                G = None
        tr.append(e)
        if w == "make" and G is None:
            break
    return tr


GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nBaseBits = 12\nPrec = 96\n"


def keyf(case, e, clauses):
    return "%s/%s/%s" % (e["ev"], "+".join(clauses), "" if e["got"] == "ok" else e["got"])
