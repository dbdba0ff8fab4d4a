"""Shared machinery of the checks: scratch space, TLC runs, drivers in child processes, verdicts, evidence."""
import os, sys, json, time, re, subprocess, shutil, tempfile, random, signal, traceback, math, atexit, hashlib
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
P = 46337


class Machinery(Exception):
    """failure of the check itself (exit 2)"""


# ----------------------------------------------------------------------------------------------
# numbers
# ----------------------------------------------------------------------------------------------
def res(x):
    """residue of an exact rational"""
    x = Fraction(x)
    d = x.denominator % P
    if d == 0:
        return -1
    return (x.numerator % P) * pow(d, P - 2, P) % P


def exact(x):
    """exact value of a Python/numpy/mpmath real, or None"""
    try:
        if isinstance(x, bool):
            return Fraction(int(x))
        if isinstance(x, (int, Fraction)):
            return Fraction(x)
        if hasattr(x, "_mpf_"):
            s, m, e, _ = x._mpf_
            if m == 0 and e != 0:
                return None
            m = int(m)
            return Fraction(-m if s else m) * Fraction(2) ** int(e)
        if hasattr(x, "_mpc_"):
            return None if x.imag != 0 else exact(x.real)
        if isinstance(x, complex):
            return None if x.imag != 0 else Fraction(x.real)
        if hasattr(x, "dtype"):
            x = x.item()
            return exact(x)
        return Fraction(x)
    except (ValueError, OverflowError, TypeError, AttributeError):
        return None


def grid(x, s=12, rel=1e-9):
    """nearest multiple of 2^-s of a number, if it is that close to one; None otherwise"""
    f = exact(x)
    if f is None:
        return None
    r = Fraction(round(f * 2 ** s), 2 ** s)
    if abs(f - r) <= Fraction(rel) * max(1, abs(f)):
        return r
    return None


def ratio(x, den=4096, rel=1e-9):
    """nearest rational with a small denominator"""
    f = exact(x)
    if f is None:
        return None
    r = f.limit_denominator(den)
    if abs(f - r) <= Fraction(rel) * max(1, abs(f)):
        return r
    return None


WILD = -2       # a double too large to be told from its neighbours on the grid: accepted by MEq


def gres(x, s=12, rel=1e-9):
    r = grid(x, s, rel)
    if r is None:
        return -1
    return WILD if abs(r) * 2 ** s > (1e12 if rel <= 1e-9 else 0.1 / rel) else res(r)


def rres(x, den=4096, rel=1e-9):
    r = ratio(x, den, rel)
    if r is None:
        return -1
    return WILD if abs(r) * den * den > 1e13 else res(r)


def eres(x):
    r = exact(x)
    return -1 if r is None else res(r)


BADMAT = {"r": -1, "c": -1, "e": []}


def mat(M, f=gres, *a, **k):
    """a matrix (numpy or mpmath, 2-D) as a TLA+ record of residues; f maps a number to a residue"""
    try:
        if hasattr(M, "rows") and hasattr(M, "cols"):
            return {"r": int(M.rows), "c": int(M.cols),
                    "e": [[f(M[i, j], *a, **k) for j in range(M.cols)] for i in range(M.rows)]}
        import numpy as np
        X = np.asarray(M)
        if X.ndim == 0:
            X = X.reshape(1, 1)
        if X.ndim == 1:
            X = X.reshape(1, -1)
        if X.ndim != 2:
            return BADMAT
        return {"r": int(X.shape[0]), "c": int(X.shape[1]),
                "e": [[f(X[i, j], *a, **k) for j in range(X.shape[1])] for i in range(X.shape[0])]}
    except Exception:
        return BADMAT


def small(x, s=0, lim=2 ** 30):
    """x*2^s as a small integer (TLC integer), or the marker -999999999"""
    r = grid(x, s)
    if r is None or abs(r * 2 ** s) >= lim:
        return -999999999
    return int(r * 2 ** s)


def npmat(m, sc=0, dtype=float):
    """TLA+ record of integers (scaled by 2^sc) -> numpy matrix"""
    import numpy as np
    X = np.zeros((m["r"], m["c"]), dtype=dtype)
    for i in range(m["r"]):
        for j in range(m["c"]):
            X[i, j] = m["e"][i][j] / 2.0 ** sc if sc else m["e"][i][j]
    return np.matrix(X)


def imat(rows, c=None):
    """integer matrix record"""
    rows = [list(r) for r in rows]
    return {"r": len(rows), "c": len(rows[0]) if rows else (c or 0), "e": rows}


# ----------------------------------------------------------------------------------------------
# the code under test
# ----------------------------------------------------------------------------------------------
_loaded = False


def load(scratch):
    """make fixif importable from /repo, with the stand-ins and every output redirected to scratch"""
    global _loaded
    if _loaded:
        return
    _loaded = True
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(scratch, "mpl"))
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    import warnings
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    import stubs
    stubs.install()


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def guarded(f, *a, seconds=20, **k):
    """('ok', value) | ('raise', exception class name, message) | ('timeout',)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return ("ok", f(*a, **k))
    except Timeout:
        return ("timeout", "Timeout", "no answer after %d s" % seconds)
    except Exception as e:
        return ("raise", type(e).__name__, str(e)[:200])
    finally:
        signal.alarm(0)


# ----------------------------------------------------------------------------------------------
class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.pidmain = os.getpid()
        atexit.register(self._cleanup)
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.known_hit = [], [], {}
        self.notes, self.assumptions, self.extra = [], [], {}
        self.known = self._load_known()
        self.thorough = tier == "thorough"

    def _cleanup(self):
        if os.getpid() == self.pidmain:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _load_known(self):
        k = []
        f = os.path.join(VERIF, "known-findings.jsonl")
        if os.path.exists(f):
            for line in open(f):
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("property") == self.pid and d.get("status", "open") == "open":
                        k.append(d)
        return k

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -- TLC -----------------------------------------------------------------------------------
    def _tlc(self, module, cfg, workers=1, env=None, args=(), timeout=800, heap="3g"):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        cfgf = os.path.join(d, "M.cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "st"),
               "-config", cfgf, "-nowarning", "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            raise Machinery("TLC timeout on %s" % module)
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
        return rc, out, d

    @staticmethod
    def _counts(out):
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out.replace(",", "") if False else out)
        m2 = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        if m2:
            g, dst = m2[-1]
            return int(g.replace(",", "")), int(dst.replace(",", ""))
        m3 = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m3:
            return int(m3[-1].replace(",", "")), 0
        return 0, 0

    def mc(self, module, cfg, workers=NCPU, timeout=800, heap="8g", args=()):
        """exhaustive check of a design specification; a violated invariant is an error of ours"""
        t = time.time()
        rc, out, _ = self._tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
        if rc != 0:
            raise Machinery("design specification %s does not hold (rc=%d)\n%s" % (module, rc, out[-3000:]))
        g, dst = self._counts(out)
        self.states += dst
        self.transitions += g
        self.notes.append("%s: exhaustive, %d distinct states, %d generated, %.1f s" % (module, dst, g, time.time() - t))
        self.log("MC %s: %d states %d generated" % (module, dst, g))
        return out

    def broken(self, module, cfg, what, workers=NCPU, timeout=300):
        """a deliberately broken design must violate the same properties (they are not vacuous)"""
        rc, out, _ = self._tlc(module, cfg, workers=workers, timeout=timeout)
        if rc not in (12, 13):
            raise Machinery("the broken design '%s' of %s is not rejected (rc=%d)\n%s" % (what, module, rc, out[-2000:]))
        self.notes.append("%s: broken design (%s) rejected by TLC" % (module, what))

    def gen(self, module, cfg, num, depth=None, timeout=300, seed=None, shards=NCPU, env=None):
        """behaviours of a generator specification: num initial states drawn at random (constant NRuns, set
        through @RUNS@), one random successor each; the spec prints each complete history as 'GEN ' + JSON"""
        def one(k):
            rc, out, _ = self._tlc(module, cfg.replace("@RUNS@", str(-(-num // shards))), workers=1, timeout=timeout, env=env,
                                   args=["-seed", str(int(hashlib.sha1(b"%d %d" % (seed or self.seed, k)).hexdigest()[:12], 16)), "-fp", str(k % 100), "-deadlock"])
            hs = []
            for line in out.splitlines():
                line = line.strip()
                if line.startswith('"GEN '):
                    hs.append(json.loads(json.loads(line)[4:]))
            if not hs or rc not in (0,):
                raise Machinery("no behaviour generated by %s (rc %d)\n%s" % (module, rc, out[-3000:]))
            g, _d = self._counts(out)
            return hs, g
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(one, range(shards)))
        hs = [h for r in rs for h in r[0]]
        seen, uniq = set(), []
        for h in hs:
            k = json.dumps(h, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(h)
        uniq.sort(key=lambda h: hashlib.sha1(json.dumps(h, sort_keys=True).encode()).hexdigest())
        self.transitions += sum(r[1] for r in rs)
        self.log("GEN %s: %d behaviours (%d distinct)" % (module, len(hs), len(uniq)))
        return uniq

    def validate(self, module, traces, cfg="", shards=NCPU, timeout=800, heap="3g"):
        """traces: list of lists of events (first event of each is a 'begin').
        Returns the failures [(trace index, event index, [clauses])]."""
        traces = [t for t in traces]
        if not traces:
            return []
        shards = max(1, min(shards, len(traces)))
        # balance by size
        order = sorted(range(len(traces)), key=lambda i: -sum(len(json.dumps(e)) for e in traces[i]))
        parts = [[] for _ in range(shards)]
        load_ = [0] * shards
        for i in order:
            k = load_.index(min(load_))
            parts[k].append(i)
            load_[k] += sum(len(json.dumps(e)) for e in traces[i]) + 1
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n" + cfg

        def one(k):
            f = os.path.join(self.scratch, "trace_%s_%d_%d.ndjson" % (module, k, self.traces))
            index = []
            with open(f, "w") as h:
                for i in parts[k]:
                    for j, e in enumerate(traces[i]):
                        h.write(json.dumps(e) + "\n")
                        index.append((i, j))
            rc, out, _ = self._tlc(module, cfg, workers=1, env={"TRACE": f}, timeout=timeout, heap=heap)
            fails = []
            for line in out.splitlines():
                line = line.strip()
                if line.startswith('"FAIL|'):
                    _, l, what = json.loads(line).split("|", 2)
                    fails.append(index[int(l) - 1] + (sorted(re.findall(r'"([^"]*)"', what)),))
            m = re.findall(r"^State (\d+):", out, re.M)
            if rc == 75 and m:
                # the specification gives no meaning to what was recorded (an operand that the code should have
                # returned does not exist, a value is not in the domain ...): the event does not belong to it
                at = min(int(m[-1]), len(index)) - 1
                if not fails:
                    fails.append(index[at] + (["no meaning in the specification"],))
                g, dst = self._counts(out)
                os.unlink(f)
                return fails, g, at + 1
            if rc != 0:
                os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
                keep = os.path.join(VERIF, "evidence", "machinery_%s.ndjson" % self.pid)
                shutil.copy(f, keep)
                raise Machinery("TLC could not finish the trace (%s, rc=%d, trace kept in %s)\n%s" % (module, rc, keep, out[-3000:]))
            g, dst = self._counts(out)
            os.unlink(f)
            if dst != len(index) + 1:
                raise Machinery("trace not consumed entirely by %s (%d states for %d events)\n%s" % (module, dst, len(index), out[-1500:]))
            return fails, g, dst
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(one, range(shards)))
        self.states += sum(r[2] for r in rs)
        self.transitions += sum(r[1] for r in rs)
        self.traces += len(traces)
        self.events += sum(len(t) for t in traces)
        fails = sorted(x for r in rs for x in r[0])
        self.log("TRACE %s: %d traces, %d events, %d rejected events" % (module, len(traces), sum(len(t) for t in traces), len(fails)))
        return fails

    # -- drivers -------------------------------------------------------------------------------
    def drive(self, func, cases, procs=NCPU, case_timeout=60, budget=500):
        """run func(case) -> list of events for every case, in forked children; a child that dies or
        hangs yields the event {'ev': 'crash'} for the case it was running, and the rest goes on."""
        n = len(cases)
        results = [None] * n
        procs = max(1, min(procs, n))
        chunks = [list(range(k, n, procs)) for k in range(procs)]
        t_end = time.time() + budget

        def child(idx, path):
            with open(path, "w", buffering=1) as h:
                for i in idx:
                    h.write(json.dumps({"start": i}) + "\n")
                    h.flush()
                    signal.signal(signal.SIGALRM, _alarm)
                    signal.alarm(case_timeout)
                    try:
                        ev = func(cases[i])
                    except Timeout:
                        ev = [{"ev": "begin", "case": i}, {"ev": "timeout", "what": "no answer in %d s" % case_timeout}]
                    except Exception as e:
                        tb = traceback.extract_tb(e.__traceback__)
                        loc = ["%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb][-3:]
                        ev = [{"ev": "begin", "case": i},
                              {"ev": "raise", "what": "%s: %s (%s)" % (type(e).__name__, str(e)[:150], " ".join(loc))}]
                    finally:
                        signal.alarm(0)
                    h.write(json.dumps({"done": i, "ev": ev}) + "\n")

        def run_chunk(idx):
            todo = list(idx)
            k = 0
            while todo:
                path = os.path.join(self.scratch, "drv_%d_%d_%d" % (idx[0], len(todo), k))
                k += 1
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        devnull = os.open(os.devnull, os.O_WRONLY)
                        if not os.environ.get("VERIF_DEBUG"):
                            os.dup2(devnull, 1)
                            os.dup2(devnull, 2)
                        os.chdir(self.scratch)
                        child(todo, path)
                        os._exit(0)
                    except BaseException:
                        os._exit(3)
                status = None
                while status is None:
                    p, st = os.waitpid(pid, os.WNOHANG)
                    if p:
                        status = st
                        break
                    if time.time() > t_end:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        status = -1
                        break
                    time.sleep(0.02)
                started, done = None, set()
                for line in open(path):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = d["start"]
                    else:
                        results[d["done"]] = d["ev"]
                        done.add(d["done"])
                os.unlink(path)
                todo = [i for i in todo if i not in done]
                if status == -1:
                    break          # out of time: the remaining cases are not explored
                if todo and started is not None and started not in done:
                    results[started] = [{"ev": "begin", "case": started}, {"ev": "crash", "what": "process ended (%s)" % status}]
                    todo = [i for i in todo if i != started]
                elif status != 0:
                    break
        if procs == 1:
            run_chunk(chunks[0])
        else:
            with ThreadPoolExecutor(procs) as ex:
                list(ex.map(run_chunk, chunks))
        missing = sum(r is None for r in results)
        self.log("DRIVE %d cases (%d not run)" % (n, missing))
        if missing > n // 2:
            raise Machinery("%d of %d cases could not be run within the budget" % (missing, n))
        return results

    # -- verdicts ------------------------------------------------------------------------------
    def report(self, key, what, replay):
        """a violation; key identifies the input / call site / history"""
        for k in self.known:
            if k["key"] == key or (k.get("prefix") and key.startswith(k["prefix"])):
                if k["key"] not in self.known_hit:
                    self.known_hit[k["key"]] = k
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        self.violations.append((key, what, replay))

    def judge(self, module, cases, traces, cfg="", keyf=None, describe=None, **kw):
        """validate traces (None = case not run) and report the rejected events"""
        idx = [i for i, t in enumerate(traces) if t is not None]
        fails = self.validate(module, [traces[i] for i in idx], cfg, **kw)
        for ti, ej, clauses in fails:
            i = idx[ti]
            e = traces[i][ej]
            case = cases[i]
            for cl in clauses:
                key = (keyf(case, e, [cl]) if keyf else None) or self.key(case, e, [cl])
                self.report(key, "%s at event %d (%s)" % (cl, ej, json.dumps(e)[:300]),
                            {"property": self.pid, "module": module, "case": case, "event": ej, "clauses": clauses, "trace": traces[i]})
        if idx and len(self.samples) < 6:
            k = idx[len(idx) // 2]
            self.samples.append({"module": module, "case": _short(cases[k]), "trace": _short(traces[k])})
        return fails

    @staticmethod
    def key(case, e, clauses):
        name = case.get("name") if isinstance(case, dict) else None
        h = name or hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:10]
        return "%s/%s" % (h, "+".join(clauses))

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
        for f in os.listdir(os.path.join(ev, "replays")):
            if f.startswith(self.pid + "_"):
                os.unlink(os.path.join(ev, "replays", f))
        out = []
        seen = set()
        for key, what, replay in self.violations:
            if key in seen:
                continue
            seen.add(key)
            if len(out) >= 10:
                break
            f = os.path.join("evidence", "replays", "%s_%d.json" % (self.pid, len(out)))
            with open(os.path.join(VERIF, f), "w") as h:
                json.dump({"key": key, "what": what, "replay": replay}, h, indent=1, default=str)
            out.append((f, key, what))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "runs": self.notes, "samples": self.samples or [{"note": "none"}]}
        cov.update(self.extra)
        if self.known_hit:
            cov["known_findings_seen"] = sorted(self.known_hit)
        d = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(ev, self.pid + ".json"), "w") as h:
            json.dump(d, h, indent=1, default=str)
        for f, key, what in out:
            print("  %s: %s" % (key, what[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, f), flush=True)
        self.log("%s: %s (%d states, %d traces, %d events)" % (self.pid, "VIOLATED" if out else "ok", self.states, self.traces, self.events))
        return 1 if out else 0


def _short(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."
