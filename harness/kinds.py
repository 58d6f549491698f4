"""What the jobs of rec.py do with the real code."""
import json, math, os, sys, random
from core import *
import core
from KMCLib.Exceptions.Error import Error

LN2 = math.log(2.0)
TUNIT = 1048576
KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def ticks(dt, rs=0):
    """a time difference in units of ln(2) / 2^20 / 2^rs"""
    v = dt * 2.0 ** rs / LN2 * TUNIT
    if not math.isfinite(v) or abs(v) > 2000000000:
        return BAD
    return int(round(v))


class Observer(KMCAnalysisPlugin):
    """Observes the state after every step of the real loop and scripts the random numbers of the next."""

    def __init__(self, scn, model, config, draws, first, log, full=True):
        self.scn, self.model, self.config, self.draws, self.log, self.full = scn, model, config, draws, log, full
        self.obs = [first]
        self.k = -1

    def push(self, nr):
        if nr < len(self.draws):
            self.k, raw = plan(self.draws[nr], self.obs[-1])
            script_draws(raw)

    def setup(self, step, time, configuration):
        self.t = time
        self.push(0)

    def registerStep(self, step, time, configuration):
        del_log = list(self.log)
        self.log[:] = []
        o = observe(self.scn, self.model._backend(), self.config, self.full)
        o.update(op="step", k=self.k, dt=ticks(time - self.t, self.scn.get("rs", 0)), adv=1 if time > self.t else 0, calls=del_log)
        self.t = time
        self.obs.append(o)
        self.push(step)

    def finalize(self):
        pass


def plan(d, o):
    """The raw 32-bit values for one step.  d: {k, z, raw:[n, n]} or {k, z, aim: e} - the e-th event."""
    k = d["k"]
    raw = [0] * d.get("z", 0) + [(1 << (32 - k)) if k > 0 else 0xffffffff]
    if "aim" in d:
        e = d["aim"] % max(1, o["avail"])
        tot, cum = float(max(1, sum(o["prate"]))), 0.0
        for p, sites in enumerate(o["sites"]):
            if e < len(sites):
                r1 = (cum + 0.5 * o["prate"][p]) / tot
                r2 = (e + 0.5) / len(sites)
                raw += [int(r1 * 4294967296), int(r2 * 4294967296)]
                break
            e -= len(sites)
            cum += o["prate"][p]
    else:
        raw += list(d["raw"])
    return (k if k > 0 else -1), raw


def init_obs(scn, model, config, log, full=True):
    o = observe(scn, model._backend(), config, full)
    o.update(op="init", k=-1, dt=0, adv=1, calls=list(log))
    log[:] = []
    return o


@kind
def walk(job):
    """Set a model up, run it with scripted random numbers, observe every state."""
    scn = job["s"]
    log = []
    model, config, inter = build(scn, log)
    return walk_of(scn, job["steps"], model, config, log)


def walk_of(scn, steps, model, config, log):
    first = init_obs(scn, model, config, log)
    obs = [first]
    end = "steps"
    if steps:
        ob = Observer(scn, model, config, steps, first, log)
        try:
            model.run(KMCControlParameters(number_of_steps=len(steps), dump_interval=1000000,
                                           analysis_interval=1, seed=1, rng_type="DEVICE"), analysis=[ob])
        except Error as e:
            end = "stuck" if "vailable processes" in str(e) else "error"
        obs = ob.obs
    return {"obs": obs, "end": end, "steps": len(steps)}


class Seeded(Observer):
    """Observes a run with one of the seeded generators, of which every step takes three numbers."""

    def push(self, nr):
        self.k = 1

    def registerStep(self, step, time, configuration):
        Observer.registerStep(self, step, time, configuration)
        r = self.stream[3 * (step - 1)]
        self.obs[-1]["e"] = int(round(-math.log(r) / LN2 * TUNIT))


@kind
def seeded(job):
    """Set a model up, perhaps run another seed, run it with a seeded generator, observe every state."""
    import subprocess
    scn, log = job["s"], []
    model, config, inter = build(scn, log)
    first = init_obs(scn, model, config, log)
    n = job["n"]
    text = subprocess.run([os.environ["KMCV_STREAMS"], job["rng"], str(job["seed"]), str(3 * n)], capture_output=True, text=True, check=True,
                          env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}).stdout
    ob = Seeded(scn, model, config, [], first, log)
    ob.stream = [float.fromhex(x) for x in text.split()]
    end = "steps"
    for rng, seed in job["before"]:           # other runs with other generators
        m, c, i = build(scn, [])
        try:
            m.run(KMCControlParameters(number_of_steps=2, seed=seed, rng_type=rng))
        except Error:
            pass
    try:
        model.run(KMCControlParameters(number_of_steps=n, dump_interval=1000000, analysis_interval=1, seed=job["seed"], rng_type=job["rng"]), analysis=[ob])
    except Error as e:
        end = "stuck" if "vailable processes" in str(e) else "error"
    return {"obs": ob.obs, "end": end, "steps": n}


@kind
def pair(job):
    """Two models in one process that take their steps by turns; both are observed."""
    s, s2, steps = job["s"], job["s2"], job["steps"]
    share = job.get("share", [])             # the parts that the two have in common
    log, log2 = [], []
    parts = {}
    model, config, inter = build(s, log, parts)
    if job["early"]:
        model2, config2, inter2 = build(s2, log2, {k: parts[k] for k in share})
        log2 = log if "inter" in share else log2
    first = init_obs(s, model, config, log)
    if not job["early"]:
        model2, config2, inter2 = build(s2, log2, {k: parts[k] for k in share})
        log2 = log if "inter" in share else log2
    obs2 = [init_obs(s2, model2, config2, log2)]
    cpp2 = model2._backend()

    class Turns(Observer):
        def push(self, nr):
            o = obs2[-1]
            if nr < len(job["steps2"]) and o["avail"] > 0 and o["rate"] > 0:
                k, raw = plan(job["steps2"][nr], o)
                script_draws(raw)
                step2(k, raw)
            Observer.push(self, nr)

    def step2(k, raw):
        timer = [v for v in vars(model2).values() if hasattr(v, "simulationTime")][0]
        t = timer.simulationTime()
        cpp2.propagateTime()
        cpp2.singleStep()
        t2 = timer.simulationTime()
        o = observe(s2, cpp2, config2, True)
        o.update(op="step", k=k, dt=ticks(t2 - t, s2.get("rs", 0)), adv=1 if t2 > t else 0, calls=list(log2))
        log2[:] = []
        obs2.append(o)

    ob = Turns(s, model, config, steps, first, log)
    end = "steps"
    try:
        model.run(KMCControlParameters(number_of_steps=len(steps), dump_interval=1000000, analysis_interval=1, seed=1, rng_type="DEVICE"), analysis=[ob])
    except Error as e:
        end = "stuck" if "vailable processes" in str(e) else "error"
    return {"both": [{"obs": ob.obs, "end": end, "steps": len(steps)}, {"obs": obs2, "end": "", "steps": 0}]}


@kind
def byturns(job):
    """Several models of one configuration, run by turns."""
    log, models = [], []
    parts = {}
    for s in job["models"]:
        model, config, inter = build(s, log, parts)
        models.append(model)
        parts = {"config": config, "lattice": parts["lattice"]}
    out = []
    for who, steps in job["turns"]:
        s, model = job["models"][who], models[who]
        occ = [b[1:] for b in buckets(config, s["types"])] if out else s["occ"]
        r = walk_of(s, steps, model, config, log)
        out.append({**r, "s": {**s, "occ": occ}})
    return {"both": out}


# ---------------------------------------------------------------- which event is selected
def step_outcomes(cpp, config, raws):
    """(process, site) that one step from the present state performs for each pair of raw random
    numbers; every step is taken by a forked copy of the process, so the state stays as it is."""
    import struct
    out = []
    batch = 64
    for a in range(0, len(raws), batch):
        fds = []
        for raw in raws[a:a + batch]:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    script_draws(raw)
                    cpp.singleStep()
                    os.write(w, struct.pack("ii", config.latestEventProcess(), config.latestEventSite()))
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            fds.append((pid, r))
        for pid, r in fds:
            data = os.read(r, 8)
            os.close(r)
            os.waitpid(pid, 0)
            out.append(list(struct.unpack("ii", data)) if len(data) == 8 else [BAD, BAD])
    return out


def grid(n):
    return [int((2 * i + 1) * 4294967296 // (2 * n)) for i in range(n)]


def selection(cpp, config, o, limit):
    nproc = len(o["prate"])
    tot = sum(o["prate"])
    n1 = tot * max(1, limit // (2 * tot)) if 0 < tot <= limit else limit
    mid = 0x55555555
    res = step_outcomes(cpp, config, [[d, mid] for d in grid(n1)])
    rec = {"n1": n1, "pc": [sum(1 for p, s in res if p == q) for q in range(nproc)], "in": [], "ext": []}
    cum = 0
    for q in range(nproc):
        pr, sites = o["prate"][q], o["sites"][q]
        if sites and pr > 0 and tot > 0:
            n2 = pr * max(1, limit // (2 * pr)) if pr <= limit else limit
            if len(set(sites)) == 1:
                n2 = 3
            d1 = int((cum + 0.5 * pr) / tot * 4294967296)
            res = step_outcomes(cpp, config, [[d1, d] for d in grid(n2)])
            u = sorted(set(sites))
            rec["in"].append({"q": q, "n": n2, "sites": u, "c": [sum(1 for r in res if r == [q, i]) for i in u]})
        cum += pr
    ends = [0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
    rec["ext"] = step_outcomes(cpp, config, [[a, b] for a in ends for b in ends])
    return rec


@kind
def select(job):
    """As walk; at some of the states, which event follows from which random numbers."""
    scn = job["s"]
    log = []
    model, config, inter = build(scn, log)
    cpp = model._backend()
    B.setRngType(B.DEVICE)
    out = []

    def take(o):
        if o["avail"] > 0 and o["rate"] > 0:
            out.append({"st": {k: o[k] for k in ("occ", "sites", "prate")}, **selection(cpp, config, o, job["limit"])})

    first = init_obs(scn, model, config, log)
    take(first)

    class Ob(Observer):
        def registerStep(self, step, time, configuration):
            Observer.registerStep(self, step, time, configuration)
            if step in job["at"]:
                keep = self.obs[-1]
                take(keep)
                self.push(step)

    if first["avail"] > 0:
        ob = Ob(scn, model, config, job["steps"], first, log)
        try:
            model.run(KMCControlParameters(number_of_steps=len(job["steps"]), dump_interval=1000000,
                                           analysis_interval=1, seed=1, rng_type="DEVICE"), analysis=[ob])
        except Error:
            pass
    return {"obs": out}


# ---------------------------------------------------------------- scripts
def rebuilt(job, model):
    """The model read back from the script that the given one writes."""
    how = job["how"]
    with open("saved.py", "w") as f:
        f.write("from KMCLib import *\n" + model._script())
    if how == "parts":
        config, inter = KMCConfigurationFromScript("saved.py"), KMCInteractionsFromScript("saved.py")
        return KMCLatticeModel(configuration=config, interactions=inter), config, inter
    ns = {}
    exec(open("saved.py").read(), ns)
    return ns["model"], ns["configuration"], ns["interactions"]


@kind
def script(job):
    """Set a model up, perhaps run it, write its script, read that back and run the model read."""
    scn = job["s"]
    core.TOL = 2.0e-4            # numbers are written with seven digits
    model, config, inter = build(scn, None)
    occ = scn["occ"]
    n = job["before"]
    if n and model._backend().interactions().totalAvailableSites() > 0:
        script_draws([x for d in job["first"] for x in [1 << 31] + list(d["raw"])])
        try:
            model.run(KMCControlParameters(number_of_steps=n, seed=1, rng_type="DEVICE"))
        except Error:
            pass
        occ = [b[1:] for b in buckets(config, scn["types"])]
    model, config, inter = rebuilt(job, model)
    res = walk_of({**scn, "occ": occ}, job["steps"], model, config, [])
    res["s"] = {**scn, "occ": occ, "written": 1}
    return res


# ---------------------------------------------------------------- all steps of small models
class Tour(KMCAnalysisPlugin):
    """Leads a model along steps that have not been taken yet."""

    def __init__(self, job, config, first, log, left, rng):
        self.job, self.config, self.log, self.left, self.rng = job, config, log, left, rng
        self.obs, self.prev, self.lost = [first], None, False

    def here(self):
        o = self.obs[-1]
        return json.dumps([o["occ"], o["id"] if self.job["ids"] else []], separators=(",", ":"))

    def setup(self, step, time, configuration):
        self.t = time
        self.aim()

    def aim(self):
        """The next step on the shortest way to one not yet taken."""
        start, graph = self.here(), self.job["graph"]
        if start not in graph:
            self.lost = True
            return
        seen, queue, target = {start: None}, [start], None
        for node in queue:
            for e in graph.get(node, []):
                if (node, e[0], e[1]) in self.left:
                    target = (node, e)
                    break
                if e[2] not in seen and e[2] in graph:
                    seen[e[2]] = (node, e)
                    queue.append(e[2])
            if target:
                break
        if target is None:
            self.lost = True
            return
        while target[0] != start:
            target = seen[target[0]]
        e, o = target[1], self.obs[-1]
        w = dict((i, r) for i, r in e[3])
        tot = float(max(1, sum(o["prate"])))
        x, hit = 0.0, None
        for i in o["sites"][e[0]]:
            if i == e[1]:
                hit = x + 0.5 * w.get(i, 0)
            x += w.get(i, 0)
        r1 = (sum(o["prate"][:e[0]]) + 0.5 * o["prate"][e[0]]) / tot
        if hit is None or self.rng.random() < 0.02:
            r1, r2 = self.rng.random(), self.rng.random()
        else:
            r2 = hit / max(x, 1e-9)
        self.k = self.rng.choice([1, 2, 3])
        script_draws([1 << (32 - self.k), min(0xffffffff, int(r1 * 4294967296)), min(0xffffffff, int(r2 * 4294967296))])

    def registerStep(self, step, time, configuration):
        prev = self.here()
        calls = list(self.log)
        self.log[:] = []
        scn = self.job["s"]
        o = observe(scn, self.model._backend(), self.config, True)
        o.update(op="step", k=self.k, dt=ticks(time - self.t, scn.get("rs", 0)), adv=1 if time > self.t else 0, calls=calls)
        self.t = time
        self.left.discard((prev, o["lp"], o["ls"]))
        self.obs.append(o)
        self.aim()

    def finalize(self):
        pass


class Lost(KMCBreakerPlugin):
    def __init__(self, tour):
        self.tour = tour

    def evaluate(self, step, time, configuration):
        return self.tour.lost or len(self.tour.obs) > 200


@kind
def tour(job):
    scn = job["s"]
    left = set((a, e[0], e[1]) for a, es in job["graph"].items() for e in es)
    total, rng, runs = len(left), random.Random(job["seed"]), []
    for _ in range(60):
        log = []
        model, config, inter = build(scn, log)
        first = init_obs(scn, model, config, log)
        t = Tour(job, config, first, log, left, rng)
        t.model = model
        n = len(left)
        if first["avail"] > 0:
            try:
                model.run(KMCControlParameters(number_of_steps=100000, dump_interval=1000000, analysis_interval=1, seed=1, rng_type="DEVICE"),
                          analysis=[t], breakers=[Lost(t)])
            except Error as e:
                if "vailable processes" not in str(e):
                    raise
        if len(left) < n or not runs:
            runs.append(t.obs)
        if not left or len(left) == n:
            break
    return {"runs": runs, "total": total, "covered": total - len(left)}
