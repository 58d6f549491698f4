"""Runs with the analysis tools that come with the package."""
import io
from core import *
from kinds import kind, ticks, LN2, TUNIT, BAD
from loops import raw3, script_draws
import core
from KMCLib.Exceptions.Error import Error

TICK = LN2 / TUNIT


class Recorder(KMCAnalysisPlugin):
    """What the analysis tools are told of, as integers."""

    def __init__(self, scn, out):
        self.scn, self.out = scn, out

    def counts(self, c):
        """Particles of each of the listed types."""
        names = self.scn["types"]
        occ = [b[1:] for b in buckets(c, names)]
        return [sum(o[names.index(t)] for o in occ) if t in names else 0 for t in self.scn["an"]["types"]]

    def take(self, op, time, c):
        names = self.scn["types"]
        o = {"op": op, "t": ticks(time), "ppt": self.counts(c), "lp": c.latestEventProcess(), "ls": c.latestEventSite(),
             "moved": [], "idel": [], "idpos": []}
        if not self.scn["bucket"]:
            o.update(moved=list(c.movedAtomIDs()), idel=[names.index(t) + 1 for t in c.atomIDTypes()],
                     idpos=[[scaled(v, SC) for v in row] for row in c.atomIDCoordinates().tolist()])
        self.out.append(o)

    def setup(self, step, time, configuration):
        self.take("setup", time, configuration)

    def registerStep(self, step, time, configuration):
        self.take("step", time, configuration)

    def finalize(self):
        pass


def near(x):
    try:
        return int(round(float(x))) if abs(float(x)) < 2e9 else BAD
    except (ValueError, OverflowError):
        return BAD


def printed(a):
    s = io.StringIO()
    a.printResults(s)
    return [r.split() for r in s.getvalue().split("\n") if r.strip()]


def msd_result(a, an):
    cnt = [int(c) for c in a.binCounters()]
    res = a.results()
    unit = 48 * 48
    rows = printed(a)[1:]
    return {"cnt": cnt, "sum": [[scaled(res[k][b] * max(1, cnt[b]), unit) for k in range(7)] for b in range(len(cnt))],
            "ts": [near(2 * t / TICK) for t in a.timeSteps()], "cut": int(a.safeCutoff()),
            "print": [{"t": near(2 * float(r[0]) / TICK), "v": [near(float(v) * max(1, cnt[b]) * unit) for v in r[1:8]],
                       "n": near(float(r[15]) * cnt[b] * 100)} for b, r in enumerate(rows)]}


def comp_result(a, an):
    rows = printed(a)
    return {"data": [[near(v * 27720) for v in list(d)[1:]] for d in a.data()], "times": [near(2 * t / TICK) for t in a.times()],
            "head": rows[0][1:], "print": [{"t": near(2 * float(r[0]) / TICK), "v": [near(float(v) * 27720) for v in r[1:]]} for r in rows[1:]]}


def stat_result(a, an):
    rows = printed(a)[1:]
    return {"print": [{"t": near(float(r[0]) / TICK), "n": int(r[1]), "dn": near(float(r[2]) * an["pi"] * TICK * 100),
                       "nt": near(float(r[3]) * (k + 1) * an["pi"] * TICK * 100)} for k, r in enumerate(rows)],
            "at": [near(1.0 / v / TICK) if v > 0 else (0 if v == 0 else BAD) for v in a.spatialData().tolist()]}


def dist_result(a, an, total):
    h = [int(v) for v in a.histogram()]
    return {"hist": h, "norm": [near(v * total) if abs(v * total - round(v * total)) < 1e-6 else BAD for v in a.normalizedHistogram()] if total else [],
            "ts": [near(2 * t / TICK) for t in a.timeSteps()],
            "print": [{"t": near(2 * float(r[0]) / TICK), "v": int(r[1]), "n": near(float(r[2]) * total)} for r in printed(a)] if total else []}


@kind
def stats(job):
    """An optional run without analysis, then one with the analysis tools and a recorder."""
    scn, an = job["s"], job["s"]["an"]
    model, config, inter = build(scn, None)
    script_draws([x for d in scn["draws"] for x in raw3(d)])
    B.setRngType(B.DEVICE)
    obs = []
    if model._backend().interactions().totalAvailableSites() == 0:
        return {"obs": []}

    def go(n, **kw):
        try:
            model.run(KMCControlParameters(number_of_steps=n, analysis_interval=an["every"], seed=1, rng_type="DEVICE", dump_interval=1000), **kw)
        except Error as e:
            if "vailable processes" not in str(e):
                raise

    if an["before"]:
        go(an["before"])
    rec = Recorder(scn, obs)
    comp = Composition(time_interval=an["ci"] * TICK)
    stat = ProcessStatistics(processes=list(an["procs"]), time_interval=an["pi"] * TICK, spatially_resolved=True)
    dist = TimeStepDistribution(binsize=an["sb"] * TICK)
    tools = [comp, stat, dist]
    msd = None
    if an["msd"]:
        msd = OnTheFlyMSD(history_steps=an["H"], n_bins=an["nb"], t_max=an["nb"] * an["bt"] * TICK, track_type=scn["types"][an["track"] - 1])
        tools.append(msd)
    go(an["n"], analysis=[rec] + [tools[k] for k in an["order"] if k < len(tools)])
    if not obs:
        return {"obs": []}
    total = sum(1 for o in obs if o["op"] == "step")
    if total == 0:
        return {"obs": []}
    obs.append({"op": "result", "msd": msd_result(msd, an) if msd else {}, "comp": comp_result(comp, an), "stat": stat_result(stat, an),
                "dist": dist_result(dist, an, total)})
    return {"obs": obs}
