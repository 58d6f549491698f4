"""Builds models of the real KMCLib from JSON scenarios and observes their state.

Runs under the interpreter and with the PYTHONPATH of the code under test.  All reals are
handed over as integers: coordinates in units of 1/SC (a lattice can have
its own), rates in units of 1/RQ.  A value that is
not an integer in these units is reported as BAD (which no specification value equals).
"""
import ctypes, math, os, random
import numpy
from KMCLib import *
from KMCLib.Backend import Backend as B

SC = 12


def scale(lat):
    return lat.get("sc", SC)


BAD = -77777777
WILD = "*"

_dev = None


def device():
    global _dev
    if _dev is None:
        _dev = ctypes.CDLL(os.environ["KMCV_DEVICE"])
    return _dev


def script_draws(draws):
    d = device()
    d.kmcv_reset()
    for n in draws:
        d.kmcv_push(ctypes.c_uint(n))


TOL = 1.0e-6


def scaled(x, unit, tol=None):
    tol = TOL if tol is None else tol
    try:
        v = float(x) * unit
    except Exception:
        return BAD
    if not math.isfinite(v):
        return BAD
    r = int(round(v))
    if abs(v - r) > tol * max(1.0, abs(v)) or abs(r) > 2000000000:
        return BAD
    return r


def uncoord(c, sc=SC):
    return [v / float(sc) for v in c]


def entry_types(names, bucket):
    """[n1, n2, ..] -> [(n, 'A'), ..]"""
    return [(n, names[i]) for i, n in enumerate(bucket) if n != 0]


def unit(scn):
    """The reciprocal of the unit of rates: rates are given as integers in this unit."""
    return scn["rq"] * 2.0 ** -scn.get("rs", 0)


# The calculated rate of a scenario is an integer function of the complete environment handed to the
# calculator, so that any difference in that environment shows in the rate.
def make_calculator(scn, log):
    names = scn["types"]
    cu = scn["custom"]
    num = {t: i + 1 for i, t in enumerate(names)}
    mod = cu["mod"]
    sc = scale(scn["lat"])

    def bucketnum(t):
        # position-wise weight of an occupation: sum (7^type * count)
        if isinstance(t, str):
            return 7 ** num[t] if t in num else 0
        return sum(n * 7 ** num[name] for n, name in t)

    class Calc(KMCRateCalculatorPlugin):
        def rate(self, coords, before, after, rate_constant, process_number, gc):
            env = []
            for c, b, a in zip(coords, before, after):
                env.append({"d": [scaled(v, sc) for v in c], "b": bucketnum(b), "a": bucketnum(a)})
            acc = 0
            for e in env:
                (x, y, z), b, a = e["d"], e["b"], e["a"]
                acc += cu["kb"] * b * ((x + 3 * y + 5 * z) % 11 + 1) + cu["ka"] * a * ((2 * x + y + 7 * z) % 13 + 1)
            g = [scaled(v, sc) for v in gc]
            if not cu["cache"] or process_number in cu["exclude"]:     # a cached rate may not depend on the place
                acc += cu["kg"] * (g[0] + 2 * g[1] + 3 * g[2])
            acc += cu["kp"] * process_number
            r = (acc % mod) + (0 if cu.get("zero") else 1)
            if log is not None:
                log.append({"p": process_number, "g": g, "env": env, "rc": scaled(rate_constant, unit(scn))})
            return rate_constant * r

        def cutoff(self):
            return cu["cutoff"] / float(sc) if not cu.get("default") else None

        def cacheRates(self):
            return bool(cu["cache"])

        def excludeFromCaching(self):
            return tuple(cu.get("exclude", ()))

    return Calc


def build(scn, log=None, parts=None):
    """The real model of a scenario.  The notation in which its parts are written is chosen by
    scn['nota'], if given, among those that mean the same.  Parts given are used, not built."""
    got = parts or {}
    lat = scn["lat"]
    sc = scale(lat)
    names = scn["types"]
    nt = Notation(scn.get("nota"))

    def make(what, **given):
        made = what(**given)
        if scn.get("spoil"):               # the lists and arrays are used for something else afterwards
            for x in given.values():
                spoil(x)
        return made
    cell = make(KMCUnitCell, cell_vectors=nt.cell(lat.get("cell", [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])),
                basis_points=nt.coords([uncoord(b, sc) for b in lat["basis"]]))
    lattice = got.get("lattice") or make(KMCLattice, **nt.lattice(lat, cell))
    config = got.get("config") or make(KMCConfiguration, lattice=lattice, **nt.types(scn))
    procs = list(got.get("procs", ()))
    for p in scn["procs"][len(procs):]:
        shift = p.get("shift", [0, 0, 0])
        coords = nt.coords([uncoord([a + b for a, b in zip(e["d"], shift)], sc) for e in p["ents"]])
        rate = p["rate"] / unit(scn)
        basis = nt.ints(p["basis"])
        if p["bucket"]:
            mm = [WILD if e["w"] else nt.bucket(entry_types(names, e["m"])) for e in p["ents"]]
            up = [nt.update(entry_types(names, e["u"])) for e in p["ents"]]
            procs.append(make(KMCBucketProcess, coordinates=coords, minimum_match=mm, update=up, basis_sites=basis, rate_constant=rate))
        else:
            before = [WILD if e["w"] else names[e["m"].index(1)] for e in p["ents"]]
            after = [WILD if e["w"] else names[[a + b for a, b in zip(e["m"], e["u"])].index(1)] for e in p["ents"]]
            mv = None
            if p["mv"] == 1:
                mv = [(i, nt.vector(uncoord(e["v"], sc))) for i, e in enumerate(p["ents"]) if e["h"]]
                if p.get("mvorder"):
                    mv = [mv[k] for k in p["mvorder"]]
            procs.append(make(KMCProcess, coordinates=coords, elements_before=before, elements_after=after,
                              move_vectors=mv, basis_sites=basis, rate_constant=rate))
    inter = got.get("inter") or make(KMCInteractions, **nt.interactions(list(procs), bool(scn["implicit"])))
    if scn["custom"]["use"] and "inter" not in got:
        inter.setRateCalculator(make_calculator(scn, log))
    if parts is not None:
        parts.update(lattice=lattice, config=config, procs=procs, inter=inter)
    model = KMCLatticeModel(configuration=config, interactions=inter)
    return model, config, inter


def spoil(x):
    """Overwrite whatever of the input can be written to."""
    if isinstance(x, numpy.ndarray):
        x.fill(1)
    elif isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x[:] = x[:1] * 2


class Notation(object):
    """Equivalent ways to write the input.  Without a seed: always the plain one."""

    def __init__(self, seed):
        self.r = random.Random(seed) if seed is not None else None

    def pick(self, *alternatives):
        return (alternatives[0] if self.r is None else self.r.choice(alternatives))()

    def cell(self, rows):
        return self.pick(lambda: numpy.array([[float(x) for x in r] for r in rows]), lambda: [[float(x) for x in r] for r in rows],
                         lambda: tuple(tuple(float(x) for x in r) for r in rows))

    def coords(self, rows):
        return self.pick(lambda: rows, lambda: numpy.array(rows), lambda: tuple(tuple(r) for r in rows), lambda: [numpy.array(r) for r in rows])

    def vector(self, v):
        return self.pick(lambda: numpy.array(v), lambda: list(v), lambda: tuple(v))

    def ints(self, v):
        return self.pick(lambda: list(v), lambda: tuple(v), lambda: numpy.array(v), lambda: [numpy.int64(x) for x in v])

    def lattice(self, lat, cell):
        rep, per = tuple(lat["rep"]), tuple(bool(p) for p in lat["per"])
        kw = {"unit_cell": cell, "repetitions": rep, "periodic": per}
        if self.r is not None:
            if rep == (1, 1, 1) and self.r.random() < 0.5:
                del kw["repetitions"]
            elif self.r.random() < 0.5:
                kw["repetitions"] = list(rep)
            if all(per) and self.r.random() < 0.5:
                del kw["periodic"]
            elif self.r.random() < 0.5:
                kw["periodic"] = list(per)
        return kw

    def interactions(self, procs, implicit):
        kw = {"processes": procs, "implicit_wildcards": implicit}
        if self.r is not None:
            if implicit and self.r.random() < 0.5:
                del kw["implicit_wildcards"]
            if self.r.random() < 0.5:
                kw["processes"] = tuple(procs)
        return kw

    def types(self, scn):
        names, lat = scn["types"], scn["lat"]
        kw = {"possible_types": list(names)}
        if scn.get("listed"):           # the names in another order, and others that never occur
            kw["possible_types"] = list(scn["listed"])
        if scn["bucket"]:
            kw["types"] = [self.bucket(entry_types(names, b)) for b in scn["occ"]]
            present = sorted(set(n for b in scn["occ"] for c, n in entry_types(names, b)))
        else:
            kw["types"] = [names[b.index(1)] for b in scn["occ"]]
            present = sorted(set(kw["types"]))
            if self.r is not None and self.r.random() < 0.6:
                kw.update(self.long(kw["types"], lat, names))
        if self.r is not None and present == sorted(kw["possible_types"]) and self.r.random() < 0.5:
            del kw["possible_types"]
        return kw

    def long(self, types, lat, names):
        """Some sites by their cell and basis point, the others by default; some said twice."""
        default = self.r.choice(names)
        nb, (ra, rb, rc) = len(lat["basis"]), lat["rep"]
        out = []
        for i, t in enumerate(types):
            m = i // nb
            where = (m // (rb * rc), (m // rc) % rb, m % rc, i % nb)
            if t != default or self.r.random() < 0.3:
                if self.r.random() < 0.1:
                    out.append(where + (self.r.choice(names),))
                out.append(where + (t,))
        if not out:
            return {}
        return {"types": out, "default_type": default}

    def bucket(self, entries):
        """[(n, 'A'), ..] in any of the notations for occupations"""
        if self.r is None:
            return entries
        if len(entries) == 1:
            n, t = entries[0]
            if n == 1 and self.r.random() < 0.4:
                return t
            if self.r.random() < 0.4:
                return (n, t)
        out = []
        for n, t in entries:
            while n > 0:
                k = self.r.randint(1, n)
                out.append(t if k == 1 and self.r.random() < 0.5 else (k, t))
                n -= k
        self.r.shuffle(out)
        if self.r.random() < 0.2:
            out.append((0, self.r.choice([t for n, t in entries]))) if entries else None
        return out

    def update(self, entries):
        if self.r is None:
            return entries
        e = list(entries)
        self.r.shuffle(e)
        return e


def buckets(config, names):
    """Per site: the count of wildcards (or of types there should not be any of), then of every type."""
    number = config.possibleTypes()
    where = [number[t] for t in names]
    rest = [k for t, k in number.items() if t not in names]
    out = []
    for tb in config._backend().types():
        out.append([sum(abs(tb[k]) for k in rest)] + [tb[k] for k in where])
    return out


def by_type(config, names, counts):
    """Counts in the order of the numbers of the types: those of no type of the model, then per type."""
    number, counts = config.possibleTypes(), list(counts)
    if len(counts) != len(number):
        return [BAD for n in range(len(names) + 1)]
    return [sum(abs(counts[k]) for t, k in number.items() if t not in names)] + [counts[number[t]] for t in names]


def names_to_bucket(names, lst):
    """Counts of the names; a name that is none of them makes all of them wrong."""
    if any(t not in names for t in lst):
        return [BAD for n in names]
    return [sum(1 for t in lst if t == n) for n in names]


def observe(scn, cpp, config, full=True):
    names = scn["types"]
    rq = unit(scn)
    inter = cpp.interactions()
    ps = inter.processes()
    tb = buckets(config, names)
    b = config._backend()
    el = [list(e) for e in b.elements()]
    ppt = by_type(config, names, config.particlesPerType())
    ob = {
        "occ": [t[1:] for t in tb],
        "wild": sum(abs(t[0]) for t in tb) + abs(ppt[0]),
        "el": [names_to_bucket(names, e) for e in el],
        "api": [names_to_bucket(names, [t] if isinstance(t, str) else t) for t in config.types()],
        "sites": [list(p.sites()) for p in ps],
        "prate": [scaled(p.totalRate(), rq) for p in ps],
        "rate": scaled(inter.totalRate(), rq),
        "avail": inter.totalAvailableSites(),
        "ppt": ppt[1:],
    }
    if full:
        ob["id"] = list(b.atomID())
        ob["idel"] = [names.index(t) + 1 if t in names else 0 for t in config.atomIDTypes()]
        ob["idpos"] = [[scaled(v, scale(scn["lat"])) for v in row] for row in config.atomIDCoordinates().tolist()]
        ob["moved"] = list(config.movedAtomIDs())
        ob["mvec"] = [[scaled(c[k], scale(scn["lat"])) for k in range(3)] for c in b.recentMoveVectors()]
        ob["lp"] = config.latestEventProcess()
        ob["ls"] = config.latestEventSite()
    return ob
