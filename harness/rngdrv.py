"""histories of GenRng on the random generators"""
import hashlib, re, warnings, json
from anadrv import dy, dym


def fingerprint(*Ms):
    import numpy as np
    h = hashlib.sha1()
    for M in Ms:
        if hasattr(M, "rows"):
            h.update(repr((M.rows, M.cols, [str(M[i, j]._mpf_) for i in range(M.rows) for j in range(M.cols)])).encode())
        elif hasattr(M, "shape"):
            M = np.ascontiguousarray(np.asarray(M, dtype=float))
            h.update(repr(M.shape).encode() + M.tobytes())
        else:
            h.update(repr(M).encode())
    return h.hexdigest()[:16]


def flt(x):
    return [float(v) for v in x] if isinstance(x, (list, tuple)) or hasattr(x, "__len__") else [float(x)]


def tail(s):
    m = re.search(r"(\d+)$", s)
    return [int(m.group(1))] if m else []


def item(fn, a, o):
    """what is seen of a generated object; its key is that of its generation by its seed"""
    rng = lambda r, d=1.0: tuple(v / d for v in r)
    if fn == "filter":
        S = o.dSS
        x = {"n": int(o.order), "p": int(o.p), "q": int(o.q), "stable": int(o.isStable() is True), "fp": fingerprint(S.A, S.B, S.C, S.D), "seed": tail(o.name), "name": o.name}
        if S.A.shape != (x["n"], x["n"]) or S.D.shape != (x["p"], x["q"]):
            x["n"] = -1
        x["A"] = dym(S.A) if 0 < x["n"] <= 3 else {"r": 0, "c": 0, "e": []}
        x["key"] = "filter|%d|%d|%d|%s" % (x["n"], x["p"], x["q"], x["seed"])
        return x
    if fn in ("butter", "ellip"):
        T = o.dTF
        x = {"n": int(o.order), "m": int(o.n), "form": str(o.btype if fn == "butter" else o.etype), "W": [dy(v) for v in flt(o.Wn)], "stable": int(o.isStable() is True),
             "fp": fingerprint(T.num, T.den), "seed": tail(o.name), "name": o.name,
             "num": [dy(float(v)) for v in T.num.flat], "den": [dy(float(v)) for v in T.den.flat]}
        if x["m"] > 4:
            x["num"], x["den"] = [], []
        if fn == "ellip":
            d = o.details()
            x["rp"], x["rs"] = dy(float(d["ripple passband"])), dy(float(d["attenuation stopband"]))
        x["key"] = "%s|%s|%s" % (fn, json.dumps(a, sort_keys=True), x["seed"])
        return x
    if fn == "gab":
        bs = [[b.F1, b.F2, b.Fs, b.passGains, b.stopGain] for b in o.bands]
        m = re.search(r"[sS]eed\D{0,3}(\d+)", str(o))
        x = {"type": o.type, "seed": [int(o.seed)] if o.seed is not None else [], "fp": fingerprint(repr(bs)), "name": str(o)}
        if not m or [int(m.group(1))] != x["seed"]:
            x["seed"] = []
        x["key"] = "gab|%s|%s" % (json.dumps(a, sort_keys=True), x["seed"])
        return x
    if fn in ("tf", "tfmp"):
        return {"n": int(o.order), "fp": fingerprint(o.num, o.den), "seed": [], "key": ""}
    get = lambda M: [M[i, j] for i in range(M.rows if hasattr(M, "rows") else M.shape[0]) for j in range(M.cols if hasattr(M, "rows") else M.shape[1])]
    return {"n": int(o.n), "p": int(o.p), "q": int(o.q), "zeros": sum(1 for v in get(o.B) + get(o.C) if v == 0), "fp": fingerprint(o.A, o.B, o.C, o.D), "seed": [], "key": ""}


def single(fn, a, seed):
    """generation by the arguments"""
    from fixif.LTI import random_Filter, random_Butter, random_Elliptic, random_Gabarit
    k = {} if seed is None else {"seed": seed}
    rng = lambda r, d=100.0: tuple(v / d for v in r)
    if a is None:
        return {"filter": random_Filter, "butter": random_Butter, "ellip": random_Elliptic, "gab": random_Gabarit}[fn](**k)
    if fn == "filter":
        return random_Filter(a["n"], a["p"], a["q"], **k)
    if fn == "gab":
        return random_Gabarit(form=a["form"] or None, **k)
    kw = dict(n=tuple(a["n"]), Wc=rng(a["Wc"]), W1=rng(a["W1"]), W2=rng(a["W2"]), form=a["form"] or None, **k)
    if fn == "butter":
        return random_Butter(onlyEven=bool(a["even"]), **kw)
    return random_Elliptic(rp=tuple(a["rp"]), rs=tuple(a["rs"]), quant=a["quant"] or None, **kw)


def iterator(o):
    from fixif.LTI import iter_random_Filter, iter_random_Butter, iter_random_Elliptic, iter_random_Gabarit, iter_random_dSS, iter_random_dSSmp, iter_random_dTF, iter_random_dTFmp
    fn, a, N = o["fn"], o["args"], o["number"]
    k = {} if o["seeded"] == 2 else {"seeded": bool(o["seeded"])}
    rng = lambda r, d=100.0: tuple(v / d for v in r)
    if fn == "filter":
        return iter_random_Filter(N, n=tuple(a["n"]), p=tuple(a["p"]), q=tuple(a["q"]), ftype=a["type"], **k)
    if fn == "gab":
        return iter_random_Gabarit(N, form=a["form"] or None)
    if fn in ("tf", "tfmp"):
        return (iter_random_dTF if fn == "tf" else iter_random_dTFmp)(N, order=tuple(a["order"]))
    if fn in ("ss", "ssmp"):
        pr = dict(pBCmask=a["mask"] / 100.0, pDmask=a["dmask"] / 100.0, pDzero=a["dzero"] / 100.0)
        p, q = (1, 1) if a["one"] == 1 and fn == "ss" else (tuple(a["p"]), tuple(a["q"]))
        return (iter_random_dSS if fn == "ss" else iter_random_dSSmp)(N, bool(a["stable"]), n=tuple(a["n"]), p=p, q=q, **pr)
    kw = dict(n=tuple(a["n"]), Wc=rng(a["Wc"]), W1=rng(a["W1"]), W2=rng(a["W2"]), form=a["form"] or None, **k)
    if fn == "butter":
        return iter_random_Butter(N, onlyEven=bool(a["even"]), **kw)
    return iter_random_Elliptic(N, rp=tuple(a["rp"]), rs=tuple(a["rs"]), quant=a["quant"] or None, **kw)


def replay(case):
    import numpy as np
    from fixif.LTI import random_Filter
    warnings.simplefilter("ignore")
    np.random.seed(case["seed"])
    tr = [{"ev": "begin"}]
    made, its = [], []      # what can be generated again; iterators

    def keep(fn, a, obj, x):
        if x["seed"]:
            made.append((fn, a, obj, x))
        return {k: v for k, v in x.items() if k != "name"}

    def pull(i, k):
        o, g = its[i - 1]
        e = {"ev": "pull", "o": {"op": "pull", "i": i, "k": k}, "got": "ok", "items": [], "done": False}
        try:
            for _ in range(k):
                try:
                    y = next(g)
                except StopIteration:
                    e["done"] = True
                    break
                x = item(o["fn"], o["args"], y)
                e["items"].append(keep(o["fn"], o["args"], y, x) if o["fn"] in ("filter", "butter", "ellip", "gab") else x)
        except Exception as ex:
            e["got"], e["what"], e["msg"] = "raise", type(ex).__name__, str(ex)[:120]
        tr.append(e)

    for o in case["h"]:
        w = o["op"]
        if w == "seed":
            np.random.seed(o["s"])
        elif w == "draw":
            np.random.rand(o["k"])
        elif w == "start":
            try:
                its.append((o, iterator(o)))
            except Exception as ex:
                tr.append({"ev": "raise", "what": "start %s: %s" % (type(ex).__name__, str(ex)[:120]), "o": o})
                return tr
            tr.append({"ev": "start", "o": o})
        elif w == "pull":
            pull(o["i"], o["k"])
        else:
            e = {"ev": w, "o": o, "got": "ok"}
            try:
                if w == "gen":
                    y = single(o["fn"], o["args"], o["seed"][0] if o["seed"] else None)
                    e["x"] = keep(o["fn"], o["args"], y, item(o["fn"], o["args"], y))
                elif w == "default":
                    y = single(o["fn"], None, o["seed"][0] if o["seed"] else None)
                    e["x"] = keep(o["fn"], None, y, item(o["fn"], None, y))
                else:
                    if not made:
                        continue
                    fn, a, obj, x = made[o["j"] % len(made)]
                    y = random_Filter(name=x["name"]) if fn == "filter" else single(fn, a, x["seed"][0])
                    e["x"] = {k: v for k, v in item(fn, a, y).items() if k != "name"}
                    e["first"] = {"fp": x["fp"], "seed": x["seed"]}
            except Exception as ex:
                e["got"], e["what"], e["msg"] = "raise", type(ex).__name__, str(ex)[:120]
            tr.append(e)
    for i in range(len(its)):
        pull(i + 1, 99)
    return tr


GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
MaxLen = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\nBaseBits = 12\nTolBits = 24\n"


def keyf(case, e, clauses):
    fn = e.get("o", {}).get("fn", "")
    if e["ev"] == "pull":
        st = [o for o in case["h"] if o["op"] == "start"]
        fn = "iter_" + st[e["o"]["i"] - 1]["fn"]
    return "%s/%s/%s/%s" % (e["ev"], fn, "+".join(clauses), e.get("what", "")[:60])
