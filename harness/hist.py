"""Histories of seeded runs, to be compared with each other."""
import os
from core import *
from kinds import kind, BAD
from loops import timer_of, types_code
from KMCLib.Exceptions.Error import Error


class Note(KMCAnalysisPlugin):
    def __init__(self, scn, out, extra=None):
        self.scn, self.out, self.extra = scn, out, extra

    def setup(self, step, time, configuration):
        self.out["t0"] = float(time).hex()

    def registerStep(self, step, time, configuration):
        if self.extra:
            self.extra()
        self.out["steps"].append([configuration.latestEventProcess(), configuration.latestEventSite(), float(time).hex()])

    def finalize(self):
        pass


class Look(KMCAnalysisPlugin):
    """Looks at everything there is to look at."""

    def setup(self, step, time, c):
        self.look(c)

    def registerStep(self, step, time, c):
        self.look(c)

    def look(self, c):
        c.types(), c.atomIDTypes(), c.atomIDCoordinates(), c.sites(), c.particlesPerType(), c.movedAtomIDs(), c.possibleTypes()

    def finalize(self):
        pass


class Never(KMCBreakerPlugin):
    def __init__(self, n):
        self.n = n

    def interval(self):
        return self.n

    def evaluate(self, step, time, configuration):
        configuration.types()
        return False


def company(rng, seed):
    """Another model, set up and run."""
    cell = KMCUnitCell(cell_vectors=numpy.eye(3), basis_points=[[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.0, 0.5, 0.0], [0.0, 0.0, 0.5]][:rng.choice([1, 2, 4])])
    lattice = KMCLattice(unit_cell=cell, repetitions=(rng.choice([2, 5]), 3, 1))
    n = len(lattice.sites())
    config = KMCConfiguration(lattice=lattice, types=[rng.choice("XY") for _ in range(n)], possible_types=["X", "Y", "Z"])
    procs = [KMCProcess(coordinates=[[0.0, 0.0, 0.0]], elements_before=[a], elements_after=[b], basis_sites=[0], rate_constant=1.5) for a, b in ("XY", "YX")]
    inter = KMCInteractions(processes=procs)
    if rng.random() < 0.5:
        class R(KMCRateCalculatorPlugin):
            def rate(self, coords, before, after, rc, p, g):
                return rc * (1 + before.count("X"))

            def cacheRates(self):
                return True
        inter.setRateCalculator(R)
    model = KMCLatticeModel(configuration=config, interactions=inter)
    model.run(KMCControlParameters(number_of_steps=6, seed=seed))
    return model


@kind
def hist(job):
    scn, how = job["s"], job["how"]
    rng = random.Random(job["id"])
    out = {"steps": [], "t0": "", "end": "returned"}
    kept = []
    if how in ("company", "between"):
        kept.append(company(rng, 3))
    if how == "again":                    # the same in the same process
        m, c, i = build(scn, None)
        run_it(job, scn, m, {"steps": [], "t0": "", "end": ""}, {}, None)
        kept.append(m)
    model, config, inter = build(scn, None)
    if how in ("company", "between"):
        model._backend()
        kept.append(company(rng, 4))
    extra, kw, cp = None, {}, {}
    if how == "between":                  # the other model is looked at while this one runs
        extra = lambda: (kept[0]._backend().interactions().totalRate(), list(kept[1]._backend().interactions().processes()[0].sites()),
                         KMCLattice(unit_cell=KMCUnitCell(cell_vectors=numpy.eye(3), basis_points=[[0.0, 0.0, 0.0]] * 3), repetitions=(2, 2, 2))._map().neighbourIndices(0, 1))
    if how == "observed":
        tools = [Look(), Composition(time_interval=0.5), TimeStepDistribution(binsize=0.1), ProcessStatistics(processes=[0], time_interval=0.3, spatially_resolved=True)]
        if not scn["bucket"]:
            tools.append(OnTheFlyMSD(history_steps=3, n_bins=5, t_max=3.0, track_type=scn["types"][0]))
        kw = {"trajectory_filename": "t.py", "trajectory_type": "lattice" if scn["bucket"] else rng.choice(["lattice", "xyz"]), "breakers": [Never(1), Never(3)]}
        cp = {"dump_interval": rng.choice([1, 2, 5])} if rng.random() < 0.5 else {"dump_time_interval": rng.choice([0.05, 0.7])}
        out["tools"] = tools
    run_it(job, scn, model, out, kw, cp, extra)
    out.pop("tools", None)
    out["final"] = types_code(scn["types"], config.types())
    out["t"] = float(timer_of(model).simulationTime()).hex()
    return out


def run_it(job, scn, model, out, kw, cp, extra=None):
    note = [] if job["how"] == "bare" else [Note(scn, out, extra)]
    tools = out.get("tools", [])
    if tools:
        note = tools[:2] + note + tools[2:]
    if note:
        kw["analysis"] = note
    try:
        model.run(KMCControlParameters(number_of_steps=job["n"], seed=job["seed"], rng_type=job["rng"], **(cp or {})), **kw)
    except Error as e:
        if "vailable processes" not in str(e):
            raise
        out["end"] = "noavail"
