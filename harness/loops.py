"""Runs of the main loop, with analysis, breakers and trajectories that record what happens."""
import os
from core import *
from kinds import kind, ticks, LN2, TUNIT, BAD, plan, script_draws, device
import core
from KMCLib.Exceptions.Error import Error
import KMCLib.Utilities.Trajectory.Trajectory as TrajMod
import KMCLib.Utilities.Trajectory.LatticeTrajectory as LatMod
import KMCLib.Utilities.Trajectory.XYZTrajectory as XYZMod


class Clock(object):
    """A wall clock for the trajectories that advances by a fixed amount each time it is read."""

    def __init__(self, inc):
        self.now, self.inc = 1.7e9, inc

    def time(self):
        self.now += self.inc
        return self.now

    def ctime(self):
        return "Thu Jan  1 00:00:00 1970"


def types_code(names, types):
    return [names_to_bucket(names, [t] if isinstance(t, str) else t) for t in types]


def state(scn, config, cpp):
    return {"occ": types_code(scn["types"], config.types()),
            "idel": [scn["types"].index(t) + 1 for t in config.atomIDTypes()] if not scn["bucket"] else [],
            "idpos": [[scaled(v, SC) for v in row] for row in config.atomIDCoordinates().tolist()] if not scn["bucket"] else [],
            "avail": cpp.interactions().totalAvailableSites() if cpp.interactions().totalRate() > 0 else 0}


def timer_of(model):
    model._backend()
    return [v for v in vars(model).values() if hasattr(v, "simulationTime")][0]


def raw3(d):
    return [0] * d.get("z", 0) + [(1 << (32 - d["k"]))] + list(d["raw"])


def world(scn, draws):
    """The states that the model goes through with these random numbers (a model of its own)."""
    log = []
    model, config, inter = build(scn, None)
    B.setRngType(B.DEVICE)
    cpp = model._backend()
    timer = timer_of(model)
    out, times = [], [timer.simulationTime()]
    out.append(state(scn, config, cpp))
    for d in draws:
        if out[-1]["avail"] == 0:
            break
        script_draws(raw3(d))
        cpp.propagateTime()
        cpp.singleStep()
        out.append(state(scn, config, cpp))
        times.append(timer.simulationTime())
    for w, t in zip(out, times):
        w["t"] = ticks(t)
    return out, times


def time_index(times, t, tol=0.0):
    best = min(range(len(times)), key=lambda k: abs(times[k] - t))
    return best if abs(times[best] - t) <= tol * max(abs(t), 1e-300) else BAD


def read_lattice(path, scn, times):
    ns = {}
    with open(path) as f:
        text = f.read()
    exec(text, ns)
    recs = []
    if not (len(ns["times"]) == len(ns["steps"]) == len(ns["types"])):
        return [[scaled(v, SC, 1e-5) for v in s] for s in ns["sites"]], [{"step": BAD, "t": BAD, "occ": []}]
    for t, s, ty in zip(ns["times"], ns["steps"], ns["types"]):
        recs.append({"step": s, "t": time_index(times, t, 2e-9),
                     "occ": [names_to_bucket(scn["types"], expand(x)) for x in ty]})
    return [[scaled(v, SC, 1e-5) for v in s] for s in ns["sites"]], recs


def expand(x):
    """An occupation as written to a trajectory: 'A', or [(2, 'A'), 'B'] and the like."""
    if isinstance(x, str):
        return [x]
    out = []
    for e in x:
        if isinstance(e, str):
            out.append(e)
        else:
            out += [e[1]] * e[0]
    return out


def read_xyz(path, scn, times):
    lines = open(path).read().split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    head, recs, k = {"cell": [], "rep": [], "per": []}, [], 0
    while k < len(lines) and not lines[k].startswith("STEP"):
        w = lines[k].split()
        if w[:1] in (["a:"], ["b:"], ["c:"]):
            head["cell"].append([scaled(v, 1000) for v in w[1:]])
        if w[:1] == ["REPETITIONS"]:
            head["rep"] = [int(v) for v in w[1:]]
        if w[:1] == ["PERIODICITY"]:
            head["per"] = [1 if v == "True" else 0 for v in w[1:]]
        k += 1
    while k < len(lines):
        try:
            step, n, t = int(lines[k].split()[1]), int(lines[k + 1]), float(lines[k + 2].split()[1])
            rows = [r.split() for r in lines[k + 3:k + 3 + n]]
            ok = len(rows) == n and [int(r[4]) for r in rows] == list(range(n)) and lines[k].split()[0] == "STEP" \
                and lines[k + 2].split()[0] == "TIME"
            recs.append({"step": step, "t": time_index(times, t, 2e-9) if ok else BAD,
                         "idel": [scn["types"].index(r[0]) + 1 for r in rows],
                         "idpos": [[scaled(v, SC) for v in r[1:4]] for r in rows]})
            k += 3 + n
        except (IndexError, ValueError):
            recs.append({"step": BAD, "t": BAD, "idel": [], "idpos": []})
            break
    return head, recs


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


BOOMS = [Boom, BaseBoom, KeyboardInterrupt, SystemExit, StopIteration, ValueError, Error]


class An(KMCAnalysisPlugin):
    def __init__(self, env, i):
        self.env, self.i = env, i

    def setup(self, step, time, configuration):
        self.env.log("setupA", self.i, step, time, configuration)

    def registerStep(self, step, time, configuration):
        self.env.log("register", self.i, step, time, configuration)
        self.env.fail("register", self.i, step)

    def finalize(self):
        self.env.log("finalize", self.i, None, None, None)


class Br(KMCBreakerPlugin):
    def __init__(self, env, i, spec):
        self.env, self.i, self.spec = env, i, spec

    def interval(self):
        return self.spec["int"] if self.spec["int"] else KMCBreakerPlugin.interval(self)

    def setup(self, step, time, configuration):
        self.env.log("setupB", self.i, step, time, configuration)

    def evaluate(self, step, time, configuration):
        self.env.log("evaluate", self.i, step, time, configuration)
        self.env.fail("evaluate", self.i, step)
        return self.env.ANSWERS[self.spec.get("kind", 0)][1 if step >= self.spec["at"] else 0]


class RunEnv(object):
    ANSWERS = [(False, True), (numpy.bool_(False), numpy.bool_(True)), (0, 1), (None, True), (False, "reason")]

    def __init__(self, scn, run, times, config, path):
        self.boom = None
        self.scn, self.run, self.times, self.config, self.path = scn, run, times, config, path
        self.events, self.peeks = [], []

    def log(self, op, i, step, time, configuration):
        e = {"op": op, "i": i, "step": -1 if step is None else step,
             "t": -1 if time is None else time_index(self.times, time), "occ": [], "idpos": [], "idel": []}
        if configuration is not None:
            e["occ"] = types_code(self.scn["types"], configuration.types())
            if not self.scn["bucket"]:
                e["idpos"] = [[scaled(v, SC) for v in row] for row in configuration.atomIDCoordinates().tolist()]
        self.events.append(e)
        if self.run.get("peek") and op in ("register", "evaluate", "finalize") and self.path:
            self.peeks.append([[r["step"], r["t"]] for r in self.read()[1]])

    def read(self):
        if self.path is None or not os.path.exists(self.path):
            return None, []
        return (read_xyz if self.run["tr"] == "xyz" else read_lattice)(self.path, self.scn, self.times)

    def fail(self, op, i, step):
        x = self.run["exc"]
        if x["op"] == op and x["i"] == i and step >= x["step"]:
            self.boom = BOOMS[x.get("kind", 0)]("boom")
            raise self.boom


@kind
def loop(job):
    scn = job["s"]
    w, times = world(scn, scn["draws"])
    model, config, inter = build(scn, None)
    script_draws([x for d in scn["draws"] for x in raw3(d)])
    out = []
    clock = Clock(job.get("clock", 0.0))
    for m in (TrajMod, LatMod, XYZMod):
        if hasattr(m, "time") and not callable(m.time):
            m.time = clock
    for k, run in enumerate(scn["runs"]):
        path = None if run["tr"] == "none" else "run%d.tr" % k
        env = RunEnv(scn, run, times, config, path)
        cp = {"number_of_steps": run["n"], "seed": 1, "rng_type": "DEVICE"}
        if run["a"]:
            cp["analysis_interval"] = run["a"]
        if run["d"]:
            cp["dump_interval"] = run["d"]
        if run["ti"]:
            cp["dump_time_interval"] = run["ti"] * LN2 / TUNIT
        kw = {}
        if path:
            kw["trajectory_filename"] = path
        if run["tr"] in ("lattice", "xyz"):
            kw["trajectory_type"] = run["tr"]
        if run["nan"]:
            kw["analysis"] = [An(env, i) for i in range(run["nan"])]
        if run["brk"]:
            kw["breakers"] = [Br(env, i, b) for i, b in enumerate(run["brk"])]
        end = "returned"
        try:
            model.run(KMCControlParameters(**cp), **kw)
        except BaseException as e:
            if e is env.boom:
                end = "boom"
            elif isinstance(e, Error):
                end = "noavail" if "vailable processes" in str(e) else "error: " + str(e)[:200]
            else:
                raise
        head, recs = env.read()
        cpp = model._backend()
        out.append({"log": env.events, "recs": recs, "head": head if head is not None else 0, "end": end, "peeks": env.peeks,
                    "file": 1 if path and os.path.exists(path) else 0,
                    "final": {**state(scn, config, cpp), "t": time_index(times, timer_of(model).simulationTime())}})
    return {"obs": out, "world": w}
