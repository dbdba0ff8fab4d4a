"""diagrams of GenDiagram written as slx files and read by importSimulink"""
import os, random, tempfile, zipfile
from xml.sax.saxutils import escape
from common import mat, eres

GEN = """CONSTANTS P = 46337
NRuns = @RUNS@
MaxBlocks = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
CFG = "CONSTANT P = 46337\n"
TYPES = {"gain": "Gain", "sum": "Sum", "delay": "Delay", "sub": "SubSystem", "in": "Inport", "out": "Outport"}
DEFAULTS = {"Delay": [("DelayLength", "2")], "Gain": [("Gain", "1")], "Inport": [("Port", "1")], "Outport": [("Port", "1")], "Sum": [("IconShape", "rectangular"), ("Inputs", "++")]}


def xml(d, r):
    """the blockdiagram.xml of a diagram (the order and the writing are random) and the constants it uses"""
    nb = len(d["b"])
    sids = r.sample(range(1, 4 * nb + 3), nb)
    dots = r.random() < 0.2
    sids = ["%d:%d" % (s, r.randrange(9)) if dots and r.random() < 0.5 else str(s) for s in sids]
    withdef = r.random() < 0.5
    consts = {}
    P = lambda n, v: '<P Name="%s">%s</P>' % (n, escape(str(v)))

    def ports(i):
        ni = sum(1 for b in d["b"] if b["par"] == i + 1 and b["k"] == "in")
        no = sum(1 for b in d["b"] if b["par"] == i + 1 and b["k"] == "out")
        return ni, no

    def block(i):
        b = d["b"][i]
        ps, extra = [("Position", "[10, 20, 30, 40]"), ("ZOrder", "-1")], ""
        if b["k"] in ("in", "out"):
            if b["port"] != 1 or r.random() < 0.5:
                ps.append(("Port", b["port"]))
        elif b["k"] == "gain":
            g = b["num"] / 2.0 ** b["sc"]
            if b["name"]:
                name = b["name"] if consts.setdefault(b["name"], g) == g else b["name"] + "_%d" % i
                consts[name] = g
                ps.append(("Gain", name))
            elif g != 1 or r.random() < 0.5:
                ps.append(("Gain", r.choice([repr(g), "%g" % g])))
        elif b["k"] == "sum":
            n = len(b["sg"])
            ps.append(("Ports", "[%d, 1]" % n))
            s = [("+" if x == 1 else "-") for x in b["sg"]]
            if s != ["+", "+"] or r.random() < 0.6:
                for _ in range(r.randrange(3)):
                    s.insert(r.randrange(len(s) + 1), "|")
                ps.append(("Inputs", "".join(s)))
        elif b["k"] == "delay":
            if b["n"] != (2 if withdef else 1) or r.random() < 0.6:
                ps.append(("DelayLength", b["n"]))
        else:
            ps.append(("Ports", "[%d, %d]" % ports(i)))
            extra = system(i + 1)
        r.shuffle(ps)
        return '<Block BlockType="%s" Name="%s" SID="%s">%s%s</Block>' % (TYPES[b["k"]], "%s %d" % (b["k"], r.randrange(5)), sids[i], "".join(P(*p) for p in ps), extra)

    def branches(src, dsts, depth=0):
        """destinations of a line, as nested branches"""
        if len(dsts) == 1:
            return P("Dst", dsts[0])
        k = r.randrange(1, len(dsts))
        parts = [dsts[:k], dsts[k:]] if depth < 3 else [[x] for x in dsts]
        return "".join("<Branch>%s%s</Branch>" % (P("Points", "[0, 5]"), branches(src, x, depth + 1)) for x in parts)

    def system(par):
        bs = [i for i in range(nb) if d["b"][i]["par"] == par]
        srcs = {}
        for s, sp, t, tp in d["w"]:
            if d["b"][t - 1]["par"] == par:
                srcs.setdefault("%s#out:%d" % (sids[s - 1], sp), []).append("%s#in:%d" % (sids[t - 1], tp))
        lines = []
        for s, ds in srcs.items():
            r.shuffle(ds)
            while ds:
                k = len(ds) if r.random() < 0.8 else r.randrange(1, len(ds) + 1)
                ps = [P("ZOrder", "3"), P("Src", s)]
                lines.append("<Line>%s%s</Line>" % ("".join(ps), branches(s, ds[:k])))
                ds = ds[k:]
        for i in bs:      # lines that end nowhere
            if r.random() < 0.03 and d["b"][i]["k"] not in ("out", "sub"):
                lines.append("<Line>%s%s</Line>" % (P("Src", sids[i] + "#out:1"), P("Points", "[3, 0]")))
        r.shuffle(bs)
        r.shuffle(lines)
        return "<System>%s%s%s</System>" % (P("Location", "[0, 0, 9, 9]"), "".join(block(i) for i in bs), "".join(lines))
    body = system(0)
    defs = "<BlockParameterDefaults>%s</BlockParameterDefaults>" % "".join(
        '<Block BlockType="%s">%s</Block>' % (t, "".join(P(*x) for x in ps)) for t, ps in DEFAULTS.items()) if withdef else ""
    return '<?xml version="1.0" encoding="utf-8"?>\n<ModelInformation Version="1.0"><Model Name="m">%s%s</Model></ModelInformation>' % (defs, body), consts


def slx(path, text, name="simulink/blockdiagram.xml"):
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("[Content_Types].xml", "<Types/>")
        if name:
            z.writestr(name, text)
        z.writestr("metadata/coreProperties.xml", "<a/>")


def zrec(R):
    z = {}
    for b in "JKLMNPQRS":
        z["PP" if b == "P" else b] = mat(getattr(R, b), eres)
    return z


def attempt(path, consts, *a):
    from fixif.Structures.Simulink import importSimulink
    try:
        return importSimulink(path, consts, *a) if consts else importSimulink(path), "ok"
    except (Exception, SystemExit) as e:
        return None, type(e).__name__


def replay(case):
    import io, contextlib
    r = random.Random(case["seed"])
    tr = [{"ev": "begin"}]
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        if "bad" in case:
            path = os.path.join(tmp, "bad.slx")
            text = xml(case["h"]["d"], r)[0]
            if case["bad"] == "text":
                open(path, "w").write(text)
            elif case["bad"] == "noxml":
                slx(path, text, r.choice([None, "simulink/blockdiagram.txt", "diagram.xml"]))
            elif case["bad"] == "unsupported":
                slx(path, text.replace('BlockType="Outport"', 'BlockType="%s"' % r.choice(["Saturate", "Product", "UnitStep"])))
            tr.append({"ev": "bad", "what": case["bad"], "got": attempt(path, {})[1]})
            return tr
        d = case["h"]["d"]
        for _ in range(2):
            text, consts = xml(d, r)
            path = os.path.join(tmp, "m%d.slx" % r.randrange(100))
            slx(path, text)
            before = dict(consts)
            R, got = attempt(path, consts)
            e = {"ev": "sys", "d": d, "got": got}
            if R is not None:
                e["z"] = zrec(R)
            tr.append(e)
    return tr


def keyf(case, e, clauses):
    ks = {b["k"] for b in case["h"]["d"]["b"]}
    return "/".join([e["ev"], e.get("what") or e.get("got", ""), "sub" if "sub" in ks else "flat"] + sorted(clauses))
