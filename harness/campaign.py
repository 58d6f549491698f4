"""Running a check: build the real code, record executions of it, let TLC judge them against the
specification, model check the specification, write the evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TLC_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Machinery(Exception):
    """Something of the check itself failed: no verdict."""


class Check(object):

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="kmcv-%s-" % pid)
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = self.obs = 0
        self.samples, self.bad, self.notes, self.assumptions = [], [], {}, []
        self.known_seen = set()

    # ------------------------------------------------------------ set up
    def rng(self, *what):
        return random.Random("/".join(str(x) for x in (self.seed, self.pid) + what))

    def scaled(self, quick, thorough):
        return quick if self.quick else thorough

    def build(self):
        out = os.path.join(self.work, "build")
        r = subprocess.run([os.path.join(VERIF, "harness", "build.sh"), out], capture_output=True, text=True)
        if r.returncode:
            raise Machinery("build: " + r.stdout[-2000:] + r.stderr[-500:])
        self.device = os.path.join(out, "device.so")

    def env(self, hashseed="0"):
        e = dict(os.environ)
        for k in ("LD_PRELOAD", "PYTHONHOME", "PYTHONSTARTUP"):
            e.pop(k, None)
        e.update(PYTHONPATH="/repo/python/src", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                 PYTHONHASHSEED=hashseed, KMCV_DEVICE=self.device, KMCV_STREAMS=os.path.join(os.path.dirname(self.device), "streams"), LD_PRELOAD=self.device, PYTHONNOUSERSITE="1")
        return e

    # ------------------------------------------------------------ the real code
    def record(self, jobs, timeout=60, width=8, hashseed="0"):
        """The result of every job; those that ran out of time are tried again alone."""
        res = self._record(jobs, timeout, width, hashseed)
        slow = [k for k, r in enumerate(res) if isinstance(r, dict) and r.get("crash") == "timeout"]
        if slow:
            again = self._record([jobs[k] for k in slow[:8]], timeout * 3, 2, hashseed)
            for k, r in zip(slow, again):
                res[k] = r
        return res

    def _record(self, jobs, timeout, width, hashseed):
        base = tempfile.mkdtemp(dir=self.work)
        src, out = os.path.join(base, "jobs.json"), os.path.join(base, "out.json")
        with open(src, "w") as f:
            json.dump(jobs, f)
        e = self.env(hashseed)
        e.update(KMCV_JOBS=str(width), KMCV_JOB_TIMEOUT=str(timeout))
        r = subprocess.run([PY, os.path.join(VERIF, "harness", "rec.py"), src, out], env=e, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            # the package cannot even be imported: that is for the build to notice, not a verdict
            raise Machinery("recording: " + r.stdout[-1000:] + r.stderr[-3000:])
        with open(out) as f:
            res = json.load(f)
        shutil.rmtree(base)
        return res

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, timeout=800, workers=1, args=(), heap="2g"):
        meta = tempfile.mkdtemp(dir=self.work)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True, timeout=timeout)
            return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired as x:
            return -1, "timeout after %d s" % timeout
        finally:
            shutil.rmtree(meta, ignore_errors=True)

    def _judge_chunk(self, module, runs, timeout):
        fd, path = tempfile.mkstemp(dir=self.work, suffix=".json")
        with os.fdopen(fd, "w") as f:
            json.dump(runs, f)
        rc, out = self.tlc(module + ".tla", module + ".cfg", {"KMCV_TRACE": path}, timeout)
        os.unlink(path)
        fails = {}
        for m in re.finditer(r'<<"FAIL", "([^"]*)", (\d+), "([^"]*)">>', out):
            fails.setdefault(m.group(1), []).append((int(m.group(2)), m.group(3)))
        m = re.search(r'<<"CONSUMED", (\d+)>>', out)
        want = sum(max(1, len(r["obs"])) for r in runs)
        if rc == 0 and m and int(m.group(1)) == want:
            s = TLC_STATES.search(out)
            return fails, (int(s.group(2)), int(s.group(1))), None
        return fails, (0, 0), out

    def judge(self, module, runs, timeout=700, width=8, chunk=None):
        """{id: [(observation, clause)]} of the runs that the specification does not accept.  A run on
        which the evaluation itself fails (values of a kind the specification has no place for) is
        found by splitting and reported with the clause 'malformed'."""
        if not runs:
            return {}
        cost = lambda r: sum(1 for _ in r["obs"]) + 3
        runs = sorted(runs, key=lambda r: -cost(r))
        width = min(width, max(1, len(runs)))
        chunks = [[] for _ in range(width)]
        load = [0] * width
        for r in runs:
            k = load.index(min(load))
            chunks[k].append(r)
            load[k] += cost(r)
        fails = {}

        def work(rs, depth=0):
            f, n, err = self._judge_chunk(module, rs, timeout)
            if err is None:
                return f, n
            if "java.lang.OutOfMemory" in err or "timeout after" in err or "Parsing or semantic" in err:
                raise Machinery("TLC on %s: %s" % (module, err[-3000:]))
            if len(rs) == 1:
                got = f.get(rs[0]["id"], [])
                return {rs[0]["id"]: got + [(0, "malformed")], "": [err[-1500:]]}, (0, 0)
            mid = len(rs) // 2
            f1, n1 = work(rs[:mid], depth + 1)
            f2, n2 = work(rs[mid:], depth + 1)
            f1.update(f2)
            return f1, (n1[0] + n2[0], n1[1] + n2[1])

        with ThreadPoolExecutor(width) as ex:
            for f, n in ex.map(work, [c for c in chunks if c]):
                err = f.pop("", None)
                if err:
                    self.notes["evaluation_error"] = err[0]
                fails.update(f)
                self.states += n[0]
                self.transitions += n[1] - 1 if n[1] else 0
        self.traces += len(runs)
        self.obs += sum(len(r["obs"]) for r in runs)
        return fails

    def model(self, module, cfg, timeout=800, workers=8, args=(), heap="8g", env=None, count=True):
        """Model check the specification itself: an error there is one of the specification."""
        rc, out = self.tlc(module, cfg, env, timeout, workers, args, heap)
        if rc != 0:
            raise Machinery("model checking %s with %s: %s" % (module, cfg, out[-4000:]))
        s = TLC_STATES.search(out)
        if s and count:
            self.states += int(s.group(2))
            self.transitions += int(s.group(1))
            self.notes.setdefault("model", {})[cfg] = {"distinct": int(s.group(2)), "generated": int(s.group(1))}
        return out

    # ------------------------------------------------------------ verdicts
    def crashes(self, jobs, results):
        """Jobs in which the real code crashed, hung, or raised what it must not."""
        for j, r in zip(jobs, results):
            if isinstance(r, dict) and "crash" in r:
                self.violation(j, [(0, "crash: " + r["crash"])], r.get("text", ""))

    def violation(self, job, fails, text=""):
        self.bad.append({"property": self.pid, "job": job, "fails": fails, "text": text})

    def judge_jobs(self, module, jobs, results, tags, key="obs", extra=None):
        """Judge the recorded results of jobs; clauses in tags belong to this property."""
        self.crashes(jobs, results)
        runs, by = [], {}
        for j, r in zip(jobs, results):
            if isinstance(r, dict) and "crash" not in r and r[key]:
                run = {"id": str(j["id"]), "s": r.get("s", j["s"]), "obs": r[key]}
                if "steps" in r:
                    run.update(end=r["end"], steps=r["steps"])
                if extra:
                    run.update(extra(j, r))
                runs.append(run)
                by[run["id"]] = j
        assert len(by) == len(runs)
        fails = self.judge(module, runs)
        other = 0
        for rid, f in sorted(fails.items()):
            mine = [x for x in f if x[1] in tags or x[1].split(":")[0] in tags or x[1] == "malformed"]
            if mine:
                self.violation(by[rid], mine)
            else:
                other += 1
        if other:
            self.notes["runs_with_clauses_of_other_properties"] = self.notes.get("runs_with_clauses_of_other_properties", 0) + other
        for r in runs[:2]:
            self.sample({"id": r["id"], "model": _short(r["s"]), "observations": len(r["obs"])})
        return runs, fails

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def known(self):
        path = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(path):
            return []
        return [k for k in json.load(open(path)) if k.get("status") == "known" and k.get("property") == self.pid]

    def finish(self, level="model_checking"):
        replay_dir = os.path.join(VERIF, "evidence", "replay")
        rc = 0
        for n, v in enumerate(self.bad):
            k = self._known_match(v)
            if k:
                if k["what"] not in self.known_seen:
                    self.known_seen.add(k["what"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                continue
            rc = 1
            if n < 5:
                os.makedirs(replay_dir, exist_ok=True)
                path = os.path.join(replay_dir, "%s-%d.json" % (self.pid, n))
                with open(path, "w") as f:
                    json.dump(v, f)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  clauses: %s %s" % (v["fails"][:6], v["text"][-300:].replace("\n", " | ")))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "observations_judged": self.obs, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.bad:
            print("%s %s: held on %d traces (%d observations), %d states, %.0f s" % (
                self.pid, self.tier, self.traces, self.obs, self.states, time.time() - self.t0))
        return rc

    def _known_match(self, v):
        for k in self.known():
            if k["match"] in (str(v["job"].get("id")), str(v["job"].get("key"))) or any(
                    k["match"] == x[1] for x in v["fails"]):
                return k
        return None

    def clean(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _short(s):
    if not isinstance(s, dict):
        return s
    t = json.dumps(s)
    return s if len(t) < 900 else {k: s[k] for k in ("lat", "types", "implicit", "bucket", "custom") if k in s}
