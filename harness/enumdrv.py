"""histories of GenEnum on the real registry of structures"""
import itertools, re, random

_case = [0]


def filt(o):
    import numpy as np
    from fixif.LTI import Filter, Butter, dSS
    r = np.random.RandomState(o["seed"])
    n, p, q = o["n"], o["p"], o["q"]
    st = True if o["stable"] else r.choice([None, False])
    st = None if st is None else bool(st)
    if o["k"] == "butter":
        return Butter(max(n, 1), 0.3)
    poles = r.uniform(-0.8, 0.8, n)
    if o["k"] == "tf":
        return Filter(num=np.matrix(r.uniform(0.5, 2, n + 1)), den=np.matrix(np.atleast_1d(np.poly(poles))), stable=st)
    T = np.eye(n) + np.triu(r.uniform(-1, 1, (n, n)), 1)
    A = np.linalg.inv(T).dot(np.diag(poles)).dot(T) if n else np.zeros((0, 0))
    F = Filter(ss=dSS(np.matrix(A), np.matrix(r.uniform(0.5, 1, (n, q))), np.matrix(r.uniform(0.5, 1, (p, n))), np.matrix(r.uniform(0.5, 1, (p, q)))), stable=st)
    if o["k"] == "sstf" and p == 1 and q == 1:
        F.dTF
    return F


def siso_rule(rule):
    def acc(F, c):
        w, siso = rule[0], F.p == 1 and F.q == 1
        ok = rule[1] not in c or str(c[rule[1]]) == rule[2]
        return {"all": True, "none": False, "siso": siso, "mimo": not siso, "stable": F.isStable(), "opt": ok, "opt siso": siso or ok}[w]
    return acc


def replay(case):
    import numpy as np
    from fixif.Structures.Structure import Structure, makeARealization, iterStructuresAndOptions, iterAllRealizationsRandomFilter
    _case[0] += 1
    me = _case[0]
    tag = "_c%d" % me
    live = lambda s: s + tag if re.match(r"S\d$", s) else s
    plain = lambda s: s[:-len(tag)] if s.endswith(tag) else s
    made, regd, filters, its = [], {}, [], []
    tr = [{"ev": "begin"}]
    pairs = lambda d: [[str(k), str(v)] for k, v in (d or {}).items()]
    sts = [s for s in list(Structure.iterAllStructures()) if "_c" not in s._shortName]
    tr.append({"ev": "known", "sts": [{"name": s._shortName, "opts": [{"n": k, "v": [str(x) for x in v]} for k, v in (s.options or {}).items()]} for s in sts]})
    objs = {s._shortName: s for s in sts}

    def register(o):
        rule, acc = o["rule"], siso_rule(o["rule"])

        def make(F, **opts):
            made.append((o["name"], F, dict(opts)))
            S = F.dSS
            l = 0
            return {"JtoS": (np.eye(l), np.zeros((S.n, l)), np.zeros((S.p, l)), np.zeros((l, S.n)), np.zeros((l, S.q)), S.A, S.B, S.C, S.D)}
        s = Structure(shortName=live(o["name"]), fullName="Full " + o["name"], make=make,
                      accept=lambda F, **c: _case[0] == me and acc(F, {**{x["n"]: x["v"][0] for x in o["opts"]}, **c}), options={x["n"]: tuple(x["v"]) for x in o["opts"]} or None)
        objs[o["name"]] = s

    def desc(R, F, n0):
        """the short name and the options of a realization, and whether it was built so"""
        st = plain(R._shortName if not hasattr(R, "shortName") else R.shortName)
        e = {"st": st, "opts": [], "full": R.structureName, "filt": int(R.filter is F), "built": 1}
        m = re.search(r"\(([^()]*)\)$", R.structureName)
        if m:
            e["opts"] = [x.split(":", 1) for x in m.group(1).split(", ")] if m.group(1) else []
        calls = made[n0:]
        src = [s for s in objs if s == st]
        if st[:1] == "S" and src:
            e["built"] = int(len(calls) >= 1 and calls[-1][0] == st and calls[-1][1] is F and sorted(pairs(calls[-1][2])) == sorted(e["opts"]))
        elif st in ("DFI", "DFII", "dSS"):
            c = {k: v for k, v in direct(objs[st], dict(map(tuple, e["opts"]))).items()}
            e["built"] = int(np.array_equal(objs[st].makeRealization(F, **c).Z, R.Z))
        return e

    def direct(st, strs):
        return {k: next((v for v in (st.options or {})[k] if str(v) == strs[k]), None) for k in strs if k in (st.options or {})}

    def choose(o):
        st = objs.get(o["name"])
        if st is None:
            return None, {}
        c = {}
        for (k, v), x in zip((st.options or {}).items(), o["pick"]):
            if x:
                c[k] = v[(x - 1) % len(v)]
        return st, c
    for o in case["h"]:
        e = {"ev": o["op"], "o": o, "got": "ok"}
        w = o["op"]
        try:
            if w == "reg":
                for x in its:
                    if x["begun"] and not x["done"]:
                        x["stale"] = True
                register(o)
            elif w == "filt":
                filters.append(filt(o))
            elif w == "start":
                F = filters[o["f"] - 1]
                its.append({"F": F, "g": F.iterAllRealizations() if o["api"] == "real" else iterStructuresAndOptions(F), "api": o["api"], "begun": False, "done": False, "stale": False})
            elif w == "pull":
                x = its[o["i"] - 1]
                if x["stale"]:
                    continue
                x["begun"] = True
                e["items"], e["done"] = [], x["done"]
                for _ in range(o["k"]):
                    n0 = len(made)
                    try:
                        y = next(x["g"])
                    except StopIteration:
                        x["done"] = e["done"] = True
                        break
                    if x["api"] == "real":
                        e["items"].append(desc(y, x["F"], n0))
                    else:
                        e["items"].append({"st": plain(y[0]._shortName), "opts": pairs(y[1]), "filt": 1, "built": 1})
            elif w == "rand":
                e["groups"], last, n0 = [], None, len(made)
                for R in iterAllRealizationsRandomFilter(o["number"], n=tuple(o["n"]), p=tuple(o["p"]), q=tuple(o["q"]), seeded=bool(o["seeded"]), ftype=o["type"]):
                    if R.filter is not last:
                        last = R.filter
                        e["groups"].append({"n": int(last.order), "p": int(last.p), "q": int(last.q), "items": []})
                    e["groups"][-1]["items"].append(desc(R, last, n0))
                    n0 = len(made)
            elif w == "get":
                s = Structure.getFromName(live(o["name"]))
                e["same"] = int(s is objs.get(o["name"]))
            elif w == "accept":
                st, c = choose(o)
                if st is None:
                    continue
                e["opts"] = pairs(c)
                a = st.canAcceptFilter(filters[o["f"] - 1], **c)
                e["got"] = "yes" if a else "no"
            elif w == "make":
                F = filters[o["f"] - 1]
                st, c = choose(o)
                e["opts"] = pairs(c)
                n0 = len(made)
                k = {"structName": "my name", "shortName": "mine"} if o["named"] else {}
                if st is None or o["api"] == "name":
                    R = makeARealization(F, live(o["name"]), **dict(c, **k))
                elif o["api"] == "call":
                    R = st(F, **dict(c, **k))
                else:
                    R = st.makeRealization(F, **dict(c, **k))
                if o["named"]:
                    e["item"] = {"st": R.shortName, "full": R.structureName, "filt": int(R.filter is F), "built": 1, "opts": []}
                    if made[n0:]:
                        full = {kk: vv[0] for kk, vv in (st.options or {}).items()}
                        full.update(c)
                        e["item"]["built"] = int(sorted(pairs(made[-1][2])) == sorted(pairs(full)) and made[-1][1] is F)
                else:
                    e["item"] = desc(R, F, n0)
        except Exception as ex:
            e["got"] = type(ex).__name__ if w == "get" else "raise"
            e["what"] = "%s: %s" % (type(ex).__name__, str(ex)[:120])
            if w in ("reg", "filt", "start", "pull", "accept"):
                tr.append({"ev": "raise", "what": w + " " + e["what"], "o": o})
                return tr
        tr.append(e)
    # what is left of the enumerations in progress
    for i, x in enumerate(its):
        if not x["stale"] and case["finish"]:
            e = {"ev": "pull", "o": {"op": "pull", "i": i + 1, "k": 999}, "got": "ok", "items": [], "done": True}
            try:
                while True:
                    n0 = len(made)
                    y = next(x["g"])
                    e["items"].append(desc(y, x["F"], n0) if x["api"] == "real" else {"st": plain(y[0]._shortName), "opts": pairs(y[1]), "filt": 1, "built": 1})
            except StopIteration:
                pass
            except Exception as ex:
                tr.append({"ev": "raise", "what": "pull %s: %s" % (type(ex).__name__, str(ex)[:120])})
                return tr
            tr.append(e)
    tr.append({"ev": "all", "names": [plain(s._shortName) for s in Structure.iterAllStructures() if not re.search(r"_c\d+$", s._shortName) or s._shortName.endswith(tag)]})
    return tr


GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
MaxLen = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANTS P = 46337\n"


def keyf(case, e, clauses):
    return "%s/%s/%s" % (e["ev"], (e.get("what", "") if e["ev"] == "raise" else "")[:60], "+".join(clauses))
