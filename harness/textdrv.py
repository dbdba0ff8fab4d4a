"""names, sums of products and algorithms: what the code prints, as tokens"""
import re
from fractions import Fraction
import numpy as np
from common import res, eres, exact
import sifdrv as sd

NOTIME = 99
SYNTAX = {"r": -1}


def number(s):
    """exact value of a printed coefficient"""
    s = s.strip()
    if "0x" in s:
        return Fraction(float.fromhex(s))
    return Fraction(s)


def terms(text):
    """'a*x + -y + 0' -> list of (coefficient, variable); None if it is something else"""
    text = text.strip()
    if text == "0":
        return []
    out = []
    for part in text.split(" + "):
        part = part.strip()
        m = re.match(r"^(-?(?:0x[0-9a-fA-F.]+p[+-]?\d+|[\d.]+(?:e[+-]?\d+)?))\*(\S+)$", part)
        if m:
            out.append((number(m.group(1)), m.group(2)))
        elif re.match(r"^-[^\s\d]\S*$", part):
            out.append((Fraction(-1), part[1:]))
        elif re.match(r"^[^\s\d-]\S*$", part):
            out.append((Fraction(1), part))
        else:
            return None
    return out


def token(s):
    """printed name -> word and time"""
    s = s.replace("$", "").replace("_{", "").replace("}", "")
    m = re.match(r"^(.*?)(?:\(k([+-]\d+)?\))?$", s)
    t = NOTIME if not s.endswith(")") else int(m.group(2) or 0)
    return {"s": m.group(1), "t": t}


def statement(text, assign):
    text = " ".join(text.split())
    a = " " + assign.strip() + " "
    if a not in text:
        return None
    r, rhs = text.split(a, 1)
    ts = terms(rhs)
    if ts is None:
        return None
    return {"res": token(r), "terms": [{"c": res(c), "v": token(v)} for c, v in ts]}


BADLINE = [{"res": {"s": "?", "t": NOTIME}, "terms": []}]


def parse_txt(s):
    out, cur = [], []
    for line in s.split("\n"):
        if line.startswith("/ ") and line.endswith(" /"):
            continue
        if " <- " in line:
            cur.append(line)
        elif cur:
            cur[-1] += " " + line
        elif line.strip():
            return BADLINE
    for c in cur:
        st = statement(c, "<-")
        if st is None:
            return BADLINE
        out.append(st)
    return out


def parse_tex(s):
    """statements, declarations, swaps"""
    body = s[s.index("\\Begin{") + 7:s.index("\\end{algorithm}")].rstrip()
    body = body[:-1]
    swap = []
    m = re.findall(r"\$(\w+) \\leftarrow (\w+)\$", body)
    for a, b in m:
        swap += [a, b]
    body = re.sub(r"\$(\w+) \\leftarrow (\w+)\$", "", body)
    body = re.sub(r"\\tcp\{[^{}]*\}", "", body)
    out = []
    for c in body.split("\\\\"):
        if c.strip():
            st = statement(c, "$\\leftarrow$")
            if st is None:
                out = BADLINE
                break
            out.append(st)
    decl = []
    for kw, name, static, one, size in re.findall(r"\\Kw(\w+)\{\$(\w+)\$: (static )?(?:(real)|array \[1\.\.(\d+)\] of reals)\}", s):
        decl.append([kw, name, bool(static), 1 if one else int(size)])
    return out, decl, swap


# ----------------------------------------------------------------------------------------------
def names(case):
    from fixif.SoP import VarName, generateNames
    v = case["v"]
    tr = [{"ev": "begin"}]
    opts = []
    for o in case["os"]:
        k = dict(withTime=o["time"], shift=o["shift"], withSurname=o["ws"], suffix=o["suffix"], LaTeX=o["latex"])
        dflt = dict(withTime=True, shift=0, withSurname=False, suffix="", LaTeX=False)
        opts.append((o, {a: b for a, b in k.items() if b != dflt[a]}))
    none = lambda i: None if i == -1 else i
    if v["kind"] == "name":
        x = sd.attempt(tr, lambda: VarName(v["nm"], none(v["idx"]), v["sur"] or None, none(v["sidx"]), v["sh"]), "VarName")
        for o, k in opts:
            s = sd.attempt(tr, lambda: x.toStr(**k), "toStr")
            if s is not None:
                tr.append({"ev": "name", "v": {a: v[a] for a in ("nm", "idx", "sur", "sidx", "sh")}, "o": o, "got": s})
    else:
        surs = v["surs"]
        if v["style"] == 1:
            arg = None
        elif v["style"] == 2:
            arg = [s["s"] for s in surs]
        else:
            arg = [(s["s"], none(s["i"]), s["sh"]) for s in surs]
        for o, k in opts:
            e = {"ev": "list", "base": v["base"], "n": v["n"], "surs": surs, "o": o, "err": "", "got": []}
            try:
                e["got"] = [x.toStr(**k) for x in (generateNames(v["base"], v["n"], surnames=arg) if arg is not None else generateNames(v["base"], v["n"]))]
            except Exception as x:
                e["err"] = type(x).__name__
            tr.append(e)
    return tr


def sop(case):
    from fixif.SoP import SoP
    tr = [{"ev": "begin"}]
    cs = [float(Fraction(m) * Fraction(2) ** e) for m, e in case["cs"]]
    ints = all(e == 0 for _, e in case["cs"])
    low = all(-4 <= e <= 0 for _, e in case["cs"])
    fmts = [None] + (["%d", "%4.f"] if ints else []) + (["%.4f", "%.9f"] if low else [])
    for fmt in fmts + ["str"]:
        if fmt == "str" and not low:
            continue
        vs = list(case["vs"])
        if case["extra"]:
            vs = vs + ["z"] * case["extra"] if case["extra"] == 1 else vs[:-1]
            if len(vs) == len(cs):
                continue
        c0, v0 = list(cs), list(vs)
        assign = case["assign"] if fmt != "str" else "<-"
        e = {"ev": "sop", "cs": case["cs"], "vs": case["vs"], "res": case["res"], "extra": case["extra"], "err": "", "empty": False, "zero": False,
             "terms": [], "gotres": "", "gotassign": False, "fmt": str(fmt)}
        try:
            S = SoP(c0, v0, case["res"])
            t = str(S) if fmt == "str" else S.toAlgoStr(assign, fmt) if fmt else S.toAlgoStr(assign)
            e["empty"] = t == ""
            flat = " ".join(t.split())
            a = " " + assign.strip() + " "
            if a in flat:
                e["gotassign"] = True
                r, rhs = flat.split(a, 1)
                e["gotres"] = r
                ts = terms(rhs)
                e["zero"] = rhs.strip() == "0"
                e["terms"] = [{"c": res(c), "v": v} for c, v in ts] if ts is not None else [{"c": -1, "v": rhs}]
        except Exception as x:
            e["err"] = type(x).__name__
        tr.append(e)
    return tr


# ----------------------------------------------------------------------------------------------
def zrec(R):
    z = {}
    for b in sd.BLOCKS:
        X = np.matrix(getattr(R, b))
        z["PP" if b == "P" else b] = {"r": int(X.shape[0]), "c": int(X.shape[1]), "e": [[eres(X[i, j]) for j in range(X.shape[1])] for i in range(X.shape[0])]}
    return z


def algo_events(R, st, sur, u, rng, fmts=(None,)):
    out = []
    z = zrec(R)
    for time, ws in ((True, False), (False, False), (True, True), (False, True)):
        e = {"ev": "algo", "st": st, "sur": sur, "z": z, "u": u, "time": time, "ws": ws, "err": "", "texerr": "", "txt": [], "tex": [], "decl": [], "swap": []}
        fmt = rng.choice(fmts)
        k = dict(coefFormat=fmt, withTime=time, withSurname=ws, comments=rng.choice([True, False]))
        dflt = dict(coefFormat=None, withTime=True, withSurname=False, comments=True)
        try:
            e["txt"] = parse_txt(R.algorithmTxt(**{a: b for a, b in k.items() if b != dflt[a]}))
        except Exception as x:
            e["err"] = type(x).__name__
        k = dict(coefFormat=fmt, withTime=time, withSurname=ws)
        dflt = dict(coefFormat=None, withTime=False, withSurname=False)
        k = {a: b for a, b in k.items() if b != dflt[a]}
        if rng.randrange(2):
            k["caption"] = "An algorithm"
        if rng.randrange(2):
            k["label"] = "alg:a"
        try:
            e["tex"], e["decl"], e["swap"] = parse_tex(R.algorithmLaTeX(**k))
        except Exception as x:
            e["texerr"] = type(x).__name__
        out.append(e)
    return out


def build(g):
    """realization of GenAlgo"""
    from fixif.SIF import Realization
    from common import npmat
    sc = g["sc"]
    JtoS = [npmat(g["PP" if b == "P" else b], sc) for b in sd.BLOCKS]
    JtoS[0] = JtoS[0] + np.eye(JtoS[0].shape[0])
    none = lambda i: None if i == -1 else i
    names_ = []
    for k in ("t", "x"):
        s = g["sur"][k]
        if not s:
            names_.append(None)
        elif all(a["i"] == -1 and a["sh"] == 0 for a in s):
            names_.append([a["s"] for a in s])
        else:
            names_.append([(a["s"], none(a["i"]), a["sh"]) for a in s])
    return Realization(None, tuple(JtoS), surnameVarT=names_[0], surnameVarX=names_[1])


def algo(case):
    import random
    rng = random.Random(case["seed"])
    tr = [{"ev": "begin"}]
    g = case["g"]["z"]
    R = sd.attempt(tr, lambda: build(g), "constructor")
    if R is not None:
        fmts = [None, None, "%.4f", "%.6e"] if g["sc"] else [None, "%d", "%.2f", "%e"]
        tr += algo_events(R, "", g["sur"], case["g"]["u"], rng, fmts)
    return tr


def algo_struct(case):
    import random
    import structdrv as st
    rng = random.Random(case["seed"])
    tr = [{"ev": "begin"}]
    f, par = case["g"]["f"], case["g"]["par"]
    ps = list(st.plans(f, par, case["stable"]))
    rng.shuffle(ps)
    for s, opt in ps[:case["pick"]]:
        def one():
            F, _ = st.make_filter(f, case["stable"])
            return s.makeRealization(F, **opt) if s.canAcceptFilter(F, **opt) else None
        try:
            R = one()
        except Exception:
            continue            # judged by C02
        if R is None or R.l > 12:
            continue
        u = {"r": R.q, "c": 4, "e": [[rng.choice([1, -1, 2, 0, 3]) for _ in range(4)] for _ in range(R.q)]}
        name = s._shortName if s._shortName in ("DFI", "DFII") and not opt.get("transposed") else "-"
        tr += algo_events(R, name, {"t": [], "x": []}, u, rng)
    return tr


def keyf(case, e, clauses):
    if e["ev"] == "algo":
        return "algo/%s%s/%s" % ("timed" if e["time"] else "static", "/surnames" if e["ws"] else "", "+".join(clauses))
    return "%s/%s/%s" % (e["ev"], str(e.get("what", ""))[:60], "+".join(clauses))
