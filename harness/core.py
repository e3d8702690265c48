"""Common machinery of the checks: running TLC (model checking, behaviour generation, trace
validation), known findings, evidence and verdicts."""
from __future__ import annotations
import concurrent.futures as cf
import contextlib, copy, io, json, math, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"

NAN, PINF, NINF = 2_000_000_001, 2_000_000_002, 2_000_000_003   # as in TraceLib.tla
CLAMP = 1_000_000_000


class WrongShape(Exception):
    """The code under test returned something of a shape its interface excludes."""


def shaped(x, shape):
    """x as an array, which must have this shape."""
    import numpy as np
    x = np.asarray(x)
    if x.shape != tuple(shape):
        raise WrongShape(f"{x.shape} instead of {tuple(shape)}")
    return x


class MachineryError(Exception):
    """The check itself failed: no verdict."""


def q(x, scale=1):
    """A number as an integer in units of 1/scale (rounded); NaN and infinities as sentinels."""
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    return int(max(-CLAMP, min(CLAMP, round(x * scale))))


def qa(a, scale=1):
    """q on a (nested) array."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return q(a, scale)
    return [qa(v, scale) for v in a]


def bits(*arrays):
    """A short fingerprint of the exact bits of some arrays."""
    import hashlib
    import numpy as np
    h = hashlib.sha1()
    for a in arrays:
        a = np.asarray(a)
        h.update(str((a.dtype, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:16]


def find_tlc_classpath():
    out = [TLA_JAR]
    d = os.path.dirname(TLA_JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != os.path.basename(TLA_JAR):
            out.append(os.path.join(d, f))
    return ":".join(out)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vf-{prop}-")
        self.states = self.transitions = 0
        self.n_traces = self.n_events = 0
        self.samples = []
        self.models = []            # what TLC explored
        self.notes = []
        self.broken = []            # MachineryErrors that leave the rest to be judged
        self.stopped = False        # the checking itself has failed
        self.fails = []             # dicts: scenario, clause, line, detail
        self.assumptions = []
        self.traces = {}
        self.extra = {}
        self.pool = cf.ThreadPoolExecutor(6)
        self.jobs = []
        self._n = 0

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, args=(), timeout=800, xmx="3g"):
        self._n += 1
        meta = os.path.join(self.tmp, f"meta{self._n}")
        os.makedirs(meta, exist_ok=True)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC", "-Xss16m", f"-Xmx{xmx}", f"-Djava.io.tmpdir={meta}",
               "-cp", find_tlc_classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-config", os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module} {cfg}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def _counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            return int(m[-1][0]), int(m[-1][1])
        return 0, 0

    def model_check(self, module, cfg, expect="ok", workers=2, timeout=800):
        """Model check (in the background). expect: 'ok', or the name of the invariant/property
        that a deliberately wrong design must violate."""
        def job():
            rc, out = self._tlc(module, cfg, args=("-deadlock", "-workers", str(workers)), timeout=timeout)
            gen, dist = self._counts(out)
            if expect == "ok":
                if rc != 0 or "No error has been found" not in out:
                    raise MachineryError(f"model checking {module}/{cfg} failed:\n{out[-4000:]}")
            else:
                if f"Invariant {expect} is violated" not in out and f"{expect}" not in re.findall(
                        r"(?:property|Property|Temporal properties) (\w+)", out):
                    raise MachineryError(f"{module}/{cfg} should violate {expect} but:\n{out[-3000:]}")
            return dict(model=module, config=cfg, expect=expect, generated=gen, distinct=dist)
        self.jobs.append(self.pool.submit(job))

    def wait_models(self):
        for j in self.jobs:
            r = j.result()
            self.models.append(r)
            self.states += r["distinct"]
            self.transitions += r["generated"]
        self.jobs = []

    def generate(self, module, cfg, num, depth, env=None):
        """Behaviours generated by TLC's simulator: the JSON values the spec prints."""
        rc, out = self._tlc(module, cfg, env=env,
                            args=("-deadlock", "-workers", "1", "-simulate", f"num={num}", "-depth",
                                  str(depth), "-seed", str(self.seed * 7919 + 13)))
        res = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"{') or l.startswith('"[')]
        if not res:
            raise MachineryError(f"no behaviours generated by {module}/{cfg}:\n{out[-3000:]}")
        # TLC prints every alternative for the last steps of a behaviour: keep one of each family
        import random
        fam = {}
        for r in res:
            seq = r if isinstance(r, list) else r.get("ops", r.get("prog"))
            rest = {k: v for k, v in r.items() if v is not seq} if isinstance(r, dict) else {}
            key = json.dumps([rest, seq[:max(2, min(6, len(seq) - 2))] if isinstance(seq, list) else seq], sort_keys=True)
            fam.setdefault(key, []).append(r)
        rnd = random.Random(self.seed)
        uniq = [rnd.choice(f) for f in fam.values()]
        self.transitions += sum(len(u) if isinstance(u, list) else 1 for u in uniq)
        self.models.append(dict(model=module, config=cfg, expect="generate", generated=len(res), distinct=len(uniq)))
        return uniq[:num]

    def _run_traces(self, module, cfg, traces):
        path = os.path.join(self.tmp, f"traces{self._n}_{len(traces)}.json")
        with open(path, "w") as f:
            json.dump(traces, f)
        rc, out = self._tlc(module, cfg, env={"TRACE_FILE": path}, args=("-deadlock", "-workers", "1"), xmx="6g")
        verdicts = {}
        for l in out.splitlines():
            if l.startswith('"{'):
                v = json.loads(json.loads(l))
                if "tid" in v:
                    verdicts[v["tid"]] = v["bad"]
        gen, dist = self._counts(out)
        return rc, out, verdicts, gen, dist

    def validate(self, module, traces, canary=None, cfg=None, chunk=None):
        """Validate recorded traces against the specification. traces: list of dicts with
        'id' (scenario), 'cfg' and 'ev' (events). canary: function(trace copy) -> corrupted
        trace, or None to use a list of already corrupted traces."""
        cfg = cfg or module + ".cfg"
        good = [t for t in traces if t["ev"]]
        if not good:
            if self.fails:      # every scenario failed before it could be recorded
                return []
            raise MachineryError("no traces")
        batch = [dict(id=t["id"], cfg=t.get("cfg", {}), ev=t["ev"]) for t in good]
        ncan = 0
        canaries = []
        if canary is not None:
            for t in batch:
                if ncan >= 6:
                    break
                c = None
                try:
                    c = canary(copy.deepcopy(t))
                except Exception:       # a broken implementation may give odd traces
                    c = None
                if c is not None:
                    for cc in (c if isinstance(c, list) else [c]):
                        cc["id"] = "canary:" + t["id"]
                        canaries.append(cc)
                        ncan += 1
        allt = batch + canaries
        rc, out, verdicts, gen, dist = self._run_traces(module, cfg, allt)
        missing = [i for i in range(1, len(allt) + 1) if i not in verdicts]
        errored = set()
        if missing:
            # some trace could not be evaluated: find out which, one by one
            if len(missing) == len(allt) and len(allt) > 1:
                probe = missing
            else:
                probe = missing
            first_err = out
            nfail = 0
            for i in probe:
                if nfail >= 5:
                    errored.add(i)
                    continue
                rc1, out1, v1, g1, d1 = self._run_traces(module, cfg, [allt[i - 1]])
                if 1 in v1:
                    verdicts[i] = v1[1]
                    gen += g1
                    dist += d1
                else:
                    errored.add(i)
                    nfail += 1
                    first_err = out1
            if len(errored) == len(allt):
                raise MachineryError(f"{module}: no trace could be evaluated:\n{first_err[-4000:]}")
            for i in sorted(errored):
                if i <= len(batch):
                    verdicts[i] = [dict(l=0, c="trace-not-explainable")]
                    self.extra.setdefault("tlc_error", first_err[-3000:])
                else:
                    verdicts[i] = [dict(l=0, c="canary-not-evaluable")]
        self.states += dist
        self.transitions += gen
        self.n_traces += len(batch)
        self.n_events += sum(len(t["ev"]) for t in batch)
        res = []
        for i, t in enumerate(batch, 1):
            bad = verdicts[i]
            for b in bad:
                f = dict(scenario=t["id"], clause=b["c"], line=b["l"], module=module,
                         event=(t["ev"][b["l"] - 1] if 0 < b["l"] <= len(t["ev"]) else None), trace=t)
                self.fails.append(f)
                res.append(f)
        anyfail = bool(res) or bool(self.fails)
        for k, c in enumerate(canaries, len(batch) + 1):
            if not verdicts[k] and not anyfail:
                raise MachineryError(f"{module}: corrupted trace {c['id']} was accepted")
        if canary is not None and not canaries and not anyfail:
            raise MachineryError(f"{module}: no corrupted trace could be made")
        self.extra["canaries_rejected"] = self.extra.get("canaries_rejected", 0) + len(canaries)
        if len(self.samples) < 3:
            t = batch[0]
            self.samples.append(dict(module=module, id=t["id"], cfg=_shorten(t["cfg"]), first_event=_shorten(t["ev"][0])))
        return res

    # --------------------------------------------------------------- running the code under test
    @staticmethod
    def plain(x):
        return int(x) if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and x.dtype.kind in "iub" else str(x)

    def parallel(self, module, jobs, x64=False, workers=6):
        """Run functions of a harness module in processes of their own. jobs: (function name, *json arguments);
        returns the traces they return, those of the same id joined, in the order of the jobs."""
        import threading
        sem = threading.Semaphore(workers)
        results = [None] * len(jobs)

        def one(k, job):
            path = os.path.join(self.tmp, f"job{id(jobs)}-{k}.json")
            with open(path, "w") as f:
                json.dump(dict(prop=self.prop, tier=self.tier, seed=self.seed, module=module, function=job[0], args=list(job[1:]), x64=x64), f)
            with sem:
                r = subprocess.run([sys.executable, "-s", os.path.join(VERIF, "bin", "check.py"), "--part", path],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or not os.path.exists(path + ".out"):
                results[k] = MachineryError(f"{module}.{job[0]} failed ({r.returncode}):\n{r.stdout[-4000:]}")
            else:
                results[k] = json.load(open(path + ".out"))
        threads = [threading.Thread(target=one, args=(k, j)) for k, j in enumerate(jobs)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        out = {}
        broken = [r for r in results if isinstance(r, MachineryError)]
        if len(broken) == len(jobs):
            raise broken[0]
        # what the others recorded is judged all the same; without a violation in it, there is no verdict
        self.broken += broken
        for r in results:
            if isinstance(r, MachineryError):
                continue
            self.fails += r["fails"]
            for t in r["traces"]:
                if t["id"] in out:
                    out[t["id"]]["ev"] += t["ev"]
                else:
                    out[t["id"]] = t
        return list(out.values())

    def attempt(self, scenario, fn, *a, **k):
        """Call into the code under test where the specification allows no error."""
        try:
            return fn(*a, **k)
        except Exception as e:
            if not from_repo(e):
                raise
            self.fails.append(dict(scenario=scenario, clause="unexpected-error", line=0, module="",
                                   event=f"{type(e).__name__}: {str(e)[:500]}", trace=None))
            return None

    # --------------------------------------------------------------- verdict
    def finish(self):
        if not self.stopped:
            self.wait_models()
        known = load_known(self.prop)
        shown = set()
        viol = []
        for f in self.fails:
            k = next((k for k in known if matches(k, f)), None)
            if k is not None:
                shown.add(k["key"])
            else:
                viol.append(f)
        for k in known:
            if k["key"] in shown:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            else:
                print(f"note: known finding {k['key']} was not observed in this run")
        if self.broken and not viol:
            raise self.broken[0]
        replay = None
        if viol:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, f"{self.prop}.json")
            with open(replay, "w") as fh:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                               tlc_error=self.extra.get("tlc_error"),
                               violations=[dict(f, trace=f.get("trace")) for f in viol[:20]]), fh, default=str)
        self.evidence(len(viol), len(self.fails) - len(viol))
        if viol:
            seen = set()
            for f in viol:
                k = (f["scenario"], f["clause"])
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) <= 12:
                    print(f"  failing clause '{f['clause']}' in scenario '{f['scenario']}' line {f['line']}"
                          + (f": {str(f['event'])[:300]}" if f.get("event") is not None else ""))
            print(f"VIOLATION property={self.prop} replay={replay}")
            return 1
        print(f"OK property={self.prop} traces={self.n_traces} events={self.n_events} states={self.states} "
              f"wall={time.time() - self.t0:.1f}s")
        return 0

    def evidence(self, nviol, nknown):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.n_traces,
                                samples=self.samples, events=self.n_events, models=self.models,
                                known_finding_hits=nknown, notes=self.notes,
                                **{k: v for k, v in self.extra.items() if k != "tlc_error"}),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.tmp, ignore_errors=True)


def _shorten(x, n=400):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def load_known(prop):
    """Lines of known_findings.jsonl of kind 'known' (the 'fixed' ones suppress nothing)."""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("status") == "known" and k["property"] == prop:
                    out.append(k)
    return out


def matches(k, f):
    return f["scenario"] == k["scenario"] and f["clause"] in k["clauses"]


def from_repo(e):
    """Did the exception pass through the code under test?"""
    if isinstance(e, WrongShape):
        return True
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith(REPO + "/"):
            return True
    return False


@contextlib.contextmanager
def silence():
    """The library prints a lot."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
