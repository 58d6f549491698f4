"""Generates models and schedules of steps for the jobs.  Everything is a function of the
random.Random handed in."""
import itertools, json, math

SC = 12


def scale(lat):
    return lat.get("sc", SC)


# ---------------------------------------------------------------- geometry (for generating only)
def nsites(lat):
    return lat["rep"][0] * lat["rep"][1] * lat["rep"][2] * len(lat["basis"])


def displacements(lat, b, r):
    """All displacements from a site at basis point b to sites of the infinite lattice within r cells
    (0 along a direction with one open cell), nearest first."""
    out = []
    span = [range(-r, r + 1) if (lat["rep"][k] > 1 or lat["per"][k]) else [0] for k in range(3)]
    for c in itertools.product(*span):
        for b2 in range(len(lat["basis"])):
            d = tuple(c[k] * scale(lat) + lat["basis"][b2][k] - lat["basis"][b][k] for k in range(3))
            out.append(d)
    out.sort(key=lambda d: (sum(x * x for x in d), d))
    return out


BASES = {
    1: [[[0, 0, 0]], [[0, 0, 0]], [[3, 6, 0]]],
    2: [[[0, 0, 0], [6, 0, 0]], [[0, 0, 0], [6, 6, 0]], [[0, 0, 0], [3, 0, 0]], [[3, 0, 0], [9, 0, 0]],
        [[0, 0, 0], [4, 4, 0]], [[0, 0, 0], [6, 6, 6]]],
    3: [[[0, 0, 0], [6, 0, 0], [0, 6, 0]], [[0, 0, 0], [4, 0, 0], [8, 0, 0]], [[0, 0, 0], [3, 3, 0], [6, 0, 6]]],
}


CELLS = [[[1.0, 0.25, 0.0], [0.0, 2.0, 0.5], [0.25, 0.0, 1.5]], [[2.0, 0, 0], [0, 0.5, 0], [0, 0, 0.25]],
         [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [3.0, 0.0, 0.0]], [[10.0, 0, 0], [0, 10.0, 0], [0, 0, 10.0]]]


def lattice(rng, dim=None, nb=None, open_p=0.3, small_p=0.0, big=False, fine_p=0.0):
    dim = dim or rng.choice([1, 1, 2, 2, 3])
    nb = nb or rng.choice([1, 1, 1, 2, 2, 3])
    if dim == 3:
        nb = min(nb, 2)
    sizes = {1: [4, 5, 6, 7, 8], 2: [3, 4, 5], 3: [3, 3, 4]}[dim]
    if nb > 1:
        sizes = {1: [3, 4, 5, 6], 2: [3, 4], 3: [3]}[dim]
    axes = rng.sample([0, 1, 2], dim)
    rep = [1, 1, 1]
    per = [rng.random() < 0.3 for _ in range(3)]
    for a in axes:
        rep[a] = rng.choice(sizes) if rng.random() >= small_p else rng.choice([1, 2, 2, 3])
        per[a] = rng.random() >= open_p
    lat = {"rep": rep, "per": [int(p) for p in per], "basis": [list(b) for b in rng.choice(BASES[nb])]}
    if rng.random() < 0.25:            # the shape of the cell is of no consequence for what happens
        lat["cell"] = rng.choice(CELLS)
    if rng.random() < fine_p:
        refine(rng, lat)
    return lat


def refine(rng, lat):
    """Basis points that are not at round numbers, or very close to each other."""
    sc = lat["sc"] = rng.choice([360, 4000, 4000])
    was = lat["basis"]
    nb = len(was)
    for _ in range(100):
        f = [[x * sc // SC for x in b] for b in was]
        for k in range(1, nb):
            if rng.random() < 0.6:         # next to an earlier one, if only across the boundary
                f[k] = list(rng.choice(f[:k]))
            for a in range(3):
                if rng.random() < 0.6:
                    f[k][a] = (f[k][a] + rng.choice([-2, -1, -1, 1, 1, 2, 5])) % sc
        if nb == 1:
            f[0] = [rng.choice([0, 1, sc // 2 - 1, sc - 1]) for _ in range(3)]
        lat["basis"] = f
        if len(set(map(tuple, f))) == nb and clear(lat):
            return
    lat["basis"] = was
    del lat["sc"]


def cutoff(rng, lat, c):
    """About c, beside the distances that there are, or the length of one along an axis."""
    ds = sorted({math.sqrt(sum(x * x for x in d)) / scale(lat) for b in range(len(lat["basis"])) for d in displacements(lat, b, 3)})
    for _ in range(50):
        x = c * scale(lat) // SC + rng.choice([-2, -1, 0, 0, 1, 2])
        if all(abs(d - x / float(scale(lat))) < 2.5e-6 or abs(d - x / float(scale(lat))) > 2.2e-5 for d in ds):
            return x
    return c * scale(lat) // SC + 100


def clear(lat):
    """No doubt about which distances are the same."""
    ds = sorted({math.sqrt(sum(x * x for x in d)) / scale(lat) for b in range(len(lat["basis"])) for d in displacements(lat, b, 3)})
    return all(y - x < 2.5e-6 or y - x > 2.2e-5 for x, y in zip(ds, ds[1:]))


def site_of(lat, c, b):
    r = lat["rep"]
    return ((c[0] * r[1] + c[1]) * r[2] + c[2]) * len(lat["basis"]) + b


def site_at(lat, i, d):
    """The site displaced from i by d, or None."""
    nb, r = len(lat["basis"]), lat["rep"]
    n = i // nb
    c = [n // (r[1] * r[2]), (n // r[2]) % r[1], n % r[2]]
    pos = [c[k] * scale(lat) + lat["basis"][i % nb][k] + d[k] for k in range(3)]
    for b in range(nb):
        rel = [pos[k] - lat["basis"][b][k] for k in range(3)]
        if any(x % scale(lat) for x in rel):
            continue
        cc = [x // scale(lat) for x in rel]
        for k in range(3):
            if lat["per"][k]:
                cc[k] %= r[k]
        if all(0 <= cc[k] < r[k] for k in range(3)):
            return site_of(lat, cc, b)
    return None


# ---------------------------------------------------------------- processes
def onehot(n, t):
    return [1 if k == t else 0 for k in range(n)]


def entry(d, m, u, w=0, h=0, v=(0, 0, 0)):
    return {"d": list(d), "m": list(m), "u": list(u), "w": w, "h": h, "v": list(v)}


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def positions(rng, lat, b, n, reach, explicit):
    ds = displacements(lat, b, reach)
    if explicit:                       # every position out to the farthest
        n = max(1, min(n, len(ds)))
        return ds[:n]
    near = ds[1:]
    if reach == 1 and len(near) > 12 and rng.random() < 0.7:
        near = near[:8]
    rng.shuffle(near)
    if "sc" in lat and near and rng.random() < 0.6:     # positions that are close to each other
        f = near[0]
        near.sort(key=lambda d: sum(abs(x - y) for x, y in zip(d, f)) > 12)
    return [(0, 0, 0)] + near[:n - 1]


def process(rng, lat, nt, bucket=False, style=None, explicit=False, reach=None, wild_p=0.15, rate=None, ordered=False):
    nb = len(lat["basis"])
    b = rng.randrange(nb)
    if reach is None:
        reach = 2 if (sum(r > 1 for r in lat["rep"]) == 1 and rng.random() < 0.3) else 1
    style = style or rng.choice(["one", "swap", "swap", "cycle", "auto", "change", "catalysed", "concert"])
    n = {"one": rng.choice([1, 1, 2]), "swap": rng.choice([2, 2, 3]), "cycle": 3, "auto": rng.choice([2, 3]),
         "change": rng.choice([2, 3]), "catalysed": rng.choice([2, 3, 4]), "concert": 3}[style]
    if explicit:
        n = rng.choice([2, 3, 4, 5])
    ds = positions(rng, lat, b, n, reach, explicit)
    n = len(ds)
    mv = 0
    if bucket:
        ents = bucket_entries(rng, ds, nt, wild_p)
    else:
        ents, mv = plain_entries(rng, ds, nt, style, wild_p)
    rest = ents[1:]
    if not ordered:
        rng.shuffle(rest)
    ents = [ents[0]] + rest
    basis = [b]
    if explicit and nb > 1 and rng.random() < 0.3:
        basis = rng.sample(range(nb), 2)
    if rng.random() < 0.1:
        basis = basis + [nb + rng.randrange(2)]
    p = {"ents": ents, "rate": rate or rng.choice([1, 1, 2, 3, 5, 7]), "basis": basis, "bucket": int(bucket), "mv": mv,
         "shift": [0, 0, 0]}
    movers = [k for k, e in enumerate(ents) if e["h"]]
    if mv and rng.random() < 0.5:
        o = list(range(len(movers)))
        rng.shuffle(o)
        p["mvorder"] = o
    return p


def plain_entries(rng, ds, nt, style, wild_p):
    n = len(ds)
    before = [rng.randrange(nt) for _ in ds]
    after = list(before)
    mv, vec = 0, {}
    wild = [0] * n
    idx = list(range(n))
    if n == 1 or style == "one":
        after[0] = rng.choice([t for t in range(nt) if t != before[0]])
    elif style in ("swap", "auto", "catalysed"):
        i, j = 0, rng.randrange(1, n)
        if rng.random() < 0.1 and n > 2:
            i, j = rng.sample(range(n), 2)
        before[j] = rng.choice([t for t in range(nt) if t != before[i]])
        after = list(before)
        after[i], after[j] = before[j], before[i]
        if style == "swap":
            mv = 1
            vec = {i: sub(ds[j], ds[i]), j: sub(ds[i], ds[j])}
    elif style in ("cycle", "concert"):
        cyc = rng.sample(idx, min(n, 3))
        if style == "concert":
            t = before[cyc[0]]
            o = rng.choice([x for x in range(nt) if x != t])
            for k in cyc[:-1]:
                before[k] = t
            before[cyc[-1]] = o
        else:
            while len(set(before[k] for k in cyc)) == 1:
                for k in cyc:
                    before[k] = rng.randrange(nt)
        after = list(before)
        for a, c in zip(cyc, cyc[1:] + cyc[:1]):
            after[c] = before[a]
            vec[a] = sub(ds[c], ds[a])
        mv = 1
        if after == before:
            return plain_entries(rng, ds, nt, style, wild_p)
    else:
        while after == before:
            after = [rng.randrange(nt) if rng.random() < 0.6 else x for x in before]
    for k in range(1, n):
        if after[k] == before[k] and k not in vec and rng.random() < wild_p:
            wild[k] = 1
    ents = []
    for k in range(n):
        m = onehot(nt, before[k])
        u = sub(onehot(nt, after[k]), m)
        if wild[k]:
            ents.append(entry(ds[k], [0] * nt, [0] * nt, 1))
        elif k in vec:
            ents.append(entry(ds[k], m, u, 0, 1, vec[k]))
        else:
            ents.append(entry(ds[k], m, u))
    return ents, mv


def bucket_entries(rng, ds, nt, wild_p):
    n = len(ds)
    ents = []
    for k, d in enumerate(ds):
        m = [rng.choice([0, 0, 1, 1, 2]) for _ in range(nt)]
        w = 1 if (k > 0 and rng.random() < wild_p * 2) else 0
        if w:
            m = [0] * nt
        ents.append(entry(d, m, [0] * nt, w))
    if n == 1:
        t = rng.randrange(nt)
        t2 = (t + 1) % nt
        ents[0]["m"][t] = max(1, ents[0]["m"][t])
        ents[0]["u"][t] = -1
        ents[0]["u"][t2] = rng.choice([1, 1, 0, 2])
    else:
        t = rng.randrange(nt)
        i, j = (0, rng.randrange(1, n)) if rng.random() < 0.8 else (rng.randrange(1, n), 0)
        if ents[i]["w"]:
            i, j = j, i
        if ents[i]["w"]:
            i, j = 0, 1
        q = rng.choice([1, 1, 2])
        ents[i]["m"][t] = max(q, ents[i]["m"][t])
        ents[i]["u"][t] = -q
        ents[j]["u"][rng.randrange(nt) if rng.random() < 0.2 else t] += q
    return ents


# ---------------------------------------------------------------- models
def names(rng, nt):
    s = rng.choice(NAMESETS) + ["D", "E", "F"]
    return s[:nt]


NAMES = ["A", "B", "V"]
NAMESETS = [["A", "B", "V"], ["A", "B", "V"], ["V", "A", "B"], ["b", "a", "B"], ["O", "O2", "Vacancy"], ["AB", "A", "ABA"], ["1", "2", "12"],
            ["Cu", "CO", "C"], ["vac", "A_1", "A.2"], ["a_long_name_of_a_type", "a_long_name_of_a_tile", "x"],
            ["V_O''", 'O"', "b\\n"]]


def model(rng, dim=None, nb=None, nt=None, open_p=0.3, small_p=0.0, bucket=False, custom=False, nproc=None,
          implicit=None, styles=None, wild_p=0.15, cache=None, reach=None, maxcount=3, cutoffs=None, zero_p=0.0, scales=False, mods=None, back_p=0.4, fine_p=0.0):
    lat = lattice(rng, dim, nb, open_p, small_p, fine_p=fine_p)
    sc = scale(lat)
    nt = nt or rng.choice([2, 2, 3, 3, 4 if custom else 6])
    nproc = nproc or rng.choice([2, 3, 4, 8])
    extra = {}
    if scales and rng.random() < 0.5:      # the unit of the rates
        extra["rs"] = rng.choice([-80, -50, -40, -20, 20, 40, 60])
    if implicit is None:
        implicit = rng.random() < 0.8
    procs = []
    for k in range(nproc):
        explicit = (not implicit and rng.random() < 0.8) or rng.random() < 0.1
        procs.append(process(rng, lat, nt, bucket, rng.choice(styles) if styles else None, explicit, reach, wild_p))
    if not bucket and implicit and rng.random() < 0.5:
        # keep things moving: a plain change at a single site and its reverse
        t, o = rng.sample(range(nt), 2)
        b = rng.randrange(len(lat["basis"]))
        for a, c in ((t, o), (o, t)):
            m = onehot(nt, a)
            procs.append({"ents": [entry((0, 0, 0), m, sub(onehot(nt, c), m))], "rate": rng.choice([1, 2]), "basis": [b],
                          "bucket": 0, "mv": 0, "shift": [0, 0, 0]})
    n = nsites(lat)
    if bucket:
        occ = [[rng.choice([0, 0, 1, 1, 2, maxcount]) for _ in range(nt)] for _ in range(n)]
    else:
        w = [rng.random() + 0.1 for _ in range(nt)]
        occ = [onehot(nt, rng.choices(range(nt), w)[0]) for _ in range(n)]
    for p in list(procs):
        # the way back
        if rng.random() < back_p and len(procs) < 7 and all(not e["w"] or not any(e["u"]) for e in p["ents"]):
            ents = []
            for e in p["ents"]:
                a = [x + y for x, y in zip(e["m"], e["u"])]
                h, v = 0, (0, 0, 0)
                ents.append(entry(e["d"], a, sub(e["m"], a) if not e["w"] else e["u"], e["w"], h, v))
            byd = {tuple(e["d"]): e for e in ents}
            for e in p["ents"]:
                if e["h"]:
                    t = tuple(x + y for x, y in zip(e["d"], e["v"]))
                    if t in byd:
                        byd[t]["h"], byd[t]["v"] = 1, [-x for x in e["v"]]
            q = {**p, "ents": ents, "rate": rng.choice([1, 2, 3])}
            q.pop("mvorder", None)
            if all(min(x + y for x, y in zip(e["m"], e["u"])) >= 0 for e in ents):
                procs.append(q)
    for _ in range(rng.choice([0, 2, 4, 6])):
        # make sure that some of them can happen
        p = rng.choice(procs)
        cs = [i for i in range(n) if i % len(lat["basis"]) in p["basis"]]
        if not cs:
            continue
        c = rng.choice(cs)
        for e in p["ents"]:
            j = site_at(lat, c, e["d"])
            if j is not None and not e["w"]:
                occ[j] = [max(x, y) for x, y in zip(occ[j], e["m"])] if bucket else list(e["m"])
    if scales and not custom and rng.random() < 0.3:
        for p in procs:                    # fast and slow processes together
            p["rate"] *= rng.choice([1, 1, 100, 10000, 100000])
    if scales and bucket and not custom and rng.random() < 0.15:
        f, t = rng.choice([3, 12, 34, 40]), rng.randrange(nt)     # large numbers of one type
        for o in occ:
            o[t] = o[t] * f + rng.choice([0, 0, 1, f // 2])
        for p in procs:
            for e in p["ents"]:
                e["m"][t] *= f
    cu = {"use": 0}
    if custom:
        c = rng.choice(cutoffs or [6, 12, 12, 14, 17, 18, 24])
        if sc != SC:
            c = cutoff(rng, lat, c)
        ch = rng.random() < 0.5 if cache is None else cache
        cu = {"use": 1, "cutoff": c, "default": 0, "cache": int(ch), "exclude": [],
              "mod": rng.choice(mods or [13, 29, 101, 10007]), "kb": rng.choice([1, 2, 5]), "ka": rng.choice([0, 1, 3]),
              "kg": rng.choice([0, 1]) if ch else rng.choice([0, 0, 1]), "kp": rng.choice([0, 1])}
        # some events have rate zero
        cu["zero"] = int(rng.random() < zero_p)
        if cu["zero"]:
            cu["mod"] = rng.choice([2, 3, 7])
        if rng.random() < 0.15:
            cu.update(default=1, cutoff=sc)
        if ch and rng.random() < 0.4:
            cu["exclude"] = sorted(rng.sample(range(len(procs)), rng.randrange(1, len(procs) + 1)))
    ns = names(rng, nt)
    if rng.random() < 0.3:
        listed = ns + (["Q", "Q2"][:rng.choice([0, 1, 2])])
        rng.shuffle(listed)
        extra["listed"] = listed
    return {**extra, "lat": lat, "types": ns, "occ": occ, "procs": procs, "bucket": int(bucket), "implicit": int(implicit),
            "custom": cu, "rq": rng.choice([1, 1, 4])}


def draws(rng, n, custom=False):
    """Random numbers for n steps: extreme values included."""
    out = []

    def raw():
        r = rng.random()
        if r < 0.06:
            return 0
        if r < 0.12:
            return 0xffffffff
        return rng.getrandbits(32)
    for _ in range(n):
        d = {"k": rng.choice([1, 1, 2, 3, 5, 9, 14]), "z": 1 if rng.random() < 0.05 else 0}
        if not custom and rng.random() < 0.5:
            d["aim"] = rng.randrange(1000)
        else:
            d["raw"] = [raw(), raw()]
        out.append(d)
    return out


def variant(rng, s):
    """The same model presented differently: processes shifted, their entries in another order, the
    implicit wildcards written out."""
    s = {**s, "procs": [{**p} for p in s["procs"]]}
    for p in s["procs"]:
        ents = p["ents"][:1] + rng.sample(p["ents"][1:], len(p["ents"]) - 1)
        p["ents"] = ents
        p.pop("mvorder", None)
        if rng.random() < 0.7:
            sc = scale(s["lat"])
            p["shift"] = [rng.choice([-12, 0, 3, 6, 12, 24]) * sc // 12 + (rng.choice([-1, 0, 1]) if sc != SC else 0) for _ in range(3)]
    return s


def sibling(rng, s):
    """Make a small change to a model."""
    if s["custom"]["use"]:
        s["custom"].update(kb=s["custom"]["kb"] + 1, ka=s["custom"]["ka"] + 2)
        if rng.random() < 0.3:
            s["custom"]["cache"] = 1 - s["custom"]["cache"]
    for p in s["procs"]:
        if rng.random() < 0.5:
            p["rate"] += 1
    if rng.random() < 0.5:
        rng.shuffle(s["occ"])
    if rng.random() < 0.3:
        s["lat"]["per"] = [1 - p for p in s["lat"]["per"]]


def partner(rng, s, share, **kw):
    """Another model that can share a part with the given one."""
    t = json.loads(json.dumps(s))
    if share == "config":
        # other processes (and calculators) on the same configuration
        o = model(rng, **kw)
        t["procs"] = process_list(rng, s, **kw)
        t["implicit"] = rng.choice([0, 1, 1])
        t["custom"] = {**o["custom"], "exclude": [q for q in o["custom"].get("exclude", []) if q < len(t["procs"])]}
        return t
    if share in ("inter", "procs"):
        if rng.random() < 0.6:
            t["lat"]["rep"] = [r if r == 1 and rng.random() < 0.8 else r + rng.choice([0, 1, 2, -1]) for r in t["lat"]["rep"]]
            t["lat"]["rep"] = [max(1, r) for r in t["lat"]["rep"]]
        if rng.random() < 0.3:
            t["lat"]["per"] = [1 - p for p in t["lat"]["per"]]
        if share == "procs":
            t["implicit"] = rng.choice([0, 1])
    n = nsites(t["lat"])
    t["occ"] = [list(rng.choice(s["occ"])) for _ in range(n)]
    if rng.random() < 0.6:
        t["listed"] = rng.sample(s["types"], len(s["types"])) + ["Q", "Q2", "A0"][:rng.choice([0, 0, 1, 3])]
        rng.shuffle(t["listed"])
    if share == "lattice" or (share == "procs" and s["custom"]["use"] and rng.random() < 0.5):
        if t["custom"]["use"]:
            t["custom"].update(kb=t["custom"]["kb"] + 1, ka=t["custom"]["ka"] + 2)
    return t


def process_list(rng, s, styles=None, wild_p=0.15, reach=None, **kw):
    out = []
    for _ in range(rng.choice([1, 2, 4])):
        explicit = rng.random() < 0.2
        out.append(process(rng, s["lat"], len(s["types"]), bool(s["bucket"]), rng.choice(styles) if styles else None, explicit, reach, wild_p))
    return out


# ---------------------------------------------------------------- runs of the main loop
def loop_model(rng, mode, nruns=None, bucket=None, tr=None):
    """A small model with the parameters of consecutive runs and the random numbers for all of them."""
    bucket = rng.random() < 0.2 if bucket is None else bucket
    dies = rng.random() < 0.3
    s = model(rng, dim=rng.choice([1, 1, 2]), nb=rng.choice([1, 1, 2]), nproc=rng.choice([1, 2, 3]) if dies else 3,
              bucket=bucket, implicit=True, reach=1)
    if rng.random() < 0.3:
        s["lat"]["cell"] = [[1.0, 0.25, 0.0], [0.0, 2.0, 0.5], [0.125, 0.0, 1.5]]
    cell = s["lat"].get("cell", [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    s["cell1000"] = [[int(round(1000 * x)) for x in r] for r in cell]
    nan_max = 2
    runs = []
    for k in range(nruns or rng.choice([1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 3, 5, 7, 9])
        t = tr or rng.choice(["none", "lattice", "lattice", "xyz", "default"])
        if bucket and t == "xyz":
            t = "lattice"
        r = {"n": n, "a": rng.choice([0, 1, 2, 3, 5]), "d": rng.choice([0, 1, 2, 3, 4]), "ti": 0, "tr": t,
             "nan": rng.randrange(nan_max + 1), "brk": [], "exc": {"op": "none", "i": 0, "step": 0},
             "peek": int(rng.random() < 0.5)}
        if rng.random() < 0.4 or mode == "breakers":
            r["brk"] = [{"int": rng.choice([0, 1, 2, 3]), "at": rng.choice([1, 2, 3, 4, 6, 99]), "kind": rng.choice([0, 0, 1, 2, 3, 4])} for _ in range(rng.choice([1, 2]))]
        if mode == "times":
            r["ti"] = rng.choice([20011, 70001, 200003, 500009, 1200007, 3000017, 9000011])
            r["d"] = 0
            r["n"] = rng.choice([2, 4, 7, 9])
            r["tr"] = rng.choice(["lattice", "default", "xyz"]) if not bucket else "lattice"
        if mode == "ends" and rng.random() < 0.6:
            op = rng.choice(["register", "evaluate"])
            if op == "register":
                r["nan"] = max(1, r["nan"])
            elif not r["brk"]:
                r["brk"] = [{"int": rng.choice([0, 2]), "at": 99}]
            r["exc"] = {"op": op, "i": rng.randrange(max(1, r["nan"] if op == "register" else len(r["brk"]))), "step": rng.choice([1, 2, 3]), "kind": rng.randrange(7)}
        runs.append(r)
    s["runs"] = runs
    total = sum(r["n"] for r in runs)
    s["draws"] = [{"k": rng.choice([1, 1, 2, 3, 5]), "z": int(rng.random() < 0.03), "raw": [rng.getrandbits(32), rng.getrandbits(32)]}
                  for _ in range(total)]
    return s


def stats_model(rng, bucket=False):
    """A model with a run under the analysis tools."""
    s = model(rng, dim=rng.choice([1, 1, 2]), nb=rng.choice([1, 1, 2]), nproc=3, bucket=bucket, implicit=True, reach=1,
              styles=["swap", "swap", "auto", "cycle", "concert", "change"])
    if rng.random() < 0.5:
        s["lat"]["cell"] = rng.choice([[[1.0, 0.25, 0.0], [0.0, 2.0, 0.5], [0.25, 0.0, 1.5]], [[2.0, 0, 0], [0, 0.5, 0], [0, 0, 0.25]]])
    cell = s["lat"].get("cell", [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    n = rng.choice([3, 8, 15, 25, 40])
    widths = [5003, 20011, 70001, 200003, 500009, 1200007]
    s["an"] = {"msd": 0 if bucket else 1, "H": rng.choice([2, 3, 5]), "nb": rng.choice([1, 3, 8]), "bt": rng.choice(widths),
               "track": rng.randrange(1, len(s["types"]) + 1), "cell4": [[int(round(4 * x)) for x in r] for r in cell],
               "ci": rng.choice(widths), "pi": rng.choice(widths), "sb": rng.choice(widths), "types": s.get("listed", s["types"]),
               "procs": sorted(rng.sample(range(len(s["procs"])), rng.randrange(1, len(s["procs"]) + 1))), "nsites": nsites(s["lat"]),
               "n": n, "before": rng.choice([0, 0, 3]), "every": rng.choice([1, 1, 1, 2, 3]),
               "order": rng.sample(range(4), 4)}
    s["draws"] = [{"k": rng.choice([1, 1, 2, 3, 5]), "z": 0, "raw": [rng.getrandbits(32), rng.getrandbits(32)]} for _ in range(n + 4)]
    return s


def lattice_questions(rng):
    """A lattice and what to ask about it."""
    lat = lattice(rng, open_p=0.5, small_p=0.3, fine_p=0.2)
    if rng.random() < 0.4:
        lat["rep"] = [rng.choice([1, 2, 3, 4, 5]) for _ in range(3)]
    if rng.random() < 0.1:
        lat["rep"] = [rng.choice([7, 11, 13]), rng.choice([5, 6, 9]), rng.choice([2, 3])]
    lat["cell"] = rng.choice([[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], [[1.0, 0.25, 0.0], [0.0, 2.0, 0.5], [0.25, 0.0, 1.5]]])
    big = rng.random() < 0.1 and "sc" not in lat
    if big:
        lat["rep"] = rng.choice([[300, 200, 250], [1000, 3, 5000], [2, 40000, 300], [24000000, 1, 1], [1, 1, 20000000], [1000, 1000, 11]])
        rng.shuffle(lat["rep"])
    n, nb, rep = nsites(lat), len(lat["basis"]), lat["rep"]
    if big:
        ends = lambda r: rng.choice([0, r - 1, rng.randrange(r), rng.randrange(r)])
        cells = [[ends(r) for r in rep] for _ in range(25)]
        site = lambda: min(n - 1, nb * ((ends(rep[0]) * rep[1] + ends(rep[1])) * rep[2] + ends(rep[2])) + rng.randrange(nb))
    else:
        cells = [[a, b, c] for a in range(rep[0]) for b in range(rep[1]) for c in range(rep[2])]
        rng.shuffle(cells)
        site = lambda: rng.randrange(n)
    moves = []
    for _ in range(30):
        i = site()
        m = i // nb
        c = [m // (rep[1] * rep[2]), (m // rep[2]) % rep[1], m % rep[2]]
        v = []
        for k in range(3):
            if lat["per"][k]:
                v.append(rng.randint(-rep[k], rep[k]) if rng.random() < 0.3 else rng.choice([-1, 0, 1]))
                v[k] = max(-rep[k], min(rep[k], v[k]))
                if c[k] + v[k] < -rep[k] or c[k] + v[k] >= 2 * rep[k]:
                    v[k] = 0
            else:
                v.append(rng.randint(0, rep[k] - 1) - c[k])
        moves.append([i, v + [rng.randrange(nb) - i % nb]])
    wraps = []
    for _ in range(20):
        i, j = site(), site()
        wraps.append([pos_of(lat, j)[k] - pos_of(lat, i)[k] for k in range(3)])
    return {"lat": lat, "big": int(big), "cell4": [[int(round(4 * x)) for x in r] for r in lat["cell"]],
            "ask": {"cells": cells[:25], "near": [[site(), rng.choice([0, 1, 1, 2])] for _ in range(8)],
                    "sup": [[[site() for _ in range(rng.choice([1, 2, 3]))], rng.choice([1, 1, 2])] for _ in range(4)],
                    "moves": moves, "wraps": wraps}}


def pos_of(lat, i):
    nb, r = len(lat["basis"]), lat["rep"]
    m = i // nb
    c = [m // (r[1] * r[2]), (m // r[2]) % r[1], m % r[2]]
    return [c[k] * scale(lat) + lat["basis"][i % nb][k] for k in range(3)]


# ---------------------------------------------------------------- descriptions of models and runs (Inputs.tla)
def leaf(k, v=0):
    return {"k": k, "v": v}


NONE = leaf("none")


def seq(rng, items, kinds=("list", "list", "tuple")):
    return {"k": rng.choice(kinds), "v": items}


def fl(v):
    return leaf("float", v)


def coords(rng, rows):
    if rng.random() < 0.2:
        return {"k": "array", "v": [{"k": "array", "v": [fl(v) for v in r]} for r in rows]}
    return seq(rng, [seq(rng, [fl(v) for v in r], ("list", "tuple", "array")) for r in rows])


def occupation(rng, names, b):
    es = [(n, names[t]) for t, n in enumerate(b) if n]
    if len(es) == 1 and rng.random() < 0.6:
        n, t = es[0]
        return leaf("str", t) if n == 1 and rng.random() < 0.5 else {"k": "tuple", "v": [leaf("int", n), leaf("str", t)]}
    return {"k": "list", "v": [leaf("str", t) if n == 1 and rng.random() < 0.5 else {"k": "tuple", "v": [leaf("int", n), leaf("str", t)]} for n, t in es]}


def described(rng):
    """A good description of a random model and run."""
    bucket = rng.random() < 0.35
    s = model(rng, dim=rng.choice([1, 2]), bucket=bucket, nproc=rng.choice([1, 2]), reach=1)
    lat, names = s["lat"], s["types"]
    strs = lambda q: {"k": "list", "v": [leaf("str", t) for t in q]}
    cell = rng.choice([[[12, 0, 0], [0, 12, 0], [0, 0, 12]], [[12, 3, 0], [0, 24, 6], [1, 0, 18]]])
    if rng.random() < 0.3:
        lat["rep"] = [1, 1, 1]
        s["occ"] = s["occ"][:len(lat["basis"])]
    L = {"k": "KMCLattice", "unit_cell": {"k": "KMCUnitCell", "cell_vectors": coords(rng, cell), "basis_points": coords(rng, lat["basis"])},
         "repetitions": NONE if lat["rep"] == [1, 1, 1] and rng.random() < 0.5 else seq(rng, [leaf("int", n) for n in lat["rep"]]),
         "periodic": NONE if rng.random() < 0.3 else seq(rng, [leaf("bool", p) for p in lat["per"]])}
    default = NONE
    if bucket:
        types = {"k": "list", "v": [occupation(rng, names, b) for b in s["occ"]]}
    else:
        tt = [names[b.index(1)] for b in s["occ"]]
        types = strs(tt)
        if rng.random() < 0.5:
            nb, (ra, rb, rc) = len(lat["basis"]), lat["rep"]
            out = [{"k": "tuple", "v": [leaf("int", x) for x in ((i // nb) // (rb * rc), (i // nb // rc) % rb, (i // nb) % rc, i % nb)] + [leaf("str", t)]}
                   for i, t in enumerate(tt)]
            types = {"k": "list", "v": rng.sample(out, rng.randrange(1, len(out) + 1))}
            default = leaf("str", rng.choice(names))
    procs = []
    for p in s["procs"][:3]:
        c = coords(rng, [e["d"] for e in p["ents"]])
        basis = {"k": "array", "v": [leaf("npint", b) for b in p["basis"]]} if rng.random() < 0.2 else seq(rng, [leaf("int", b) for b in p["basis"]])
        rate = fl(p["rate"] * 12)
        if bucket:
            procs.append({"k": "KMCBucketProcess", "coordinates": c, "basis_sites": basis, "rate_constant": rate,
                          "minimum_match": {"k": "list", "v": [leaf("str", "*") if e["w"] else occupation(rng, names, e["m"]) for e in p["ents"]]},
                          "update": {"k": "list", "v": [{"k": "list", "v": [{"k": "tuple", "v": [leaf("int", n), leaf("str", names[t])]} for t, n in enumerate(e["u"]) if n]} for e in p["ents"]]}})
        else:
            mv = NONE
            if p["mv"]:
                mv = seq(rng, [{"k": "tuple", "v": [leaf("int", i), seq(rng, [fl(v) for v in e["v"]], ("list", "tuple", "array"))]}
                               for i, e in enumerate(p["ents"]) if e["h"]])
            procs.append({"k": "KMCProcess", "coordinates": c, "basis_sites": basis, "rate_constant": rate, "move_vectors": mv,
                          "elements_before": strs(["*" if e["w"] else names[e["m"].index(1)] for e in p["ents"]]),
                          "elements_after": strs(["*" if e["w"] else names[[a + b for a, b in zip(e["m"], e["u"])].index(1)] for e in p["ents"]])})
    I = {"k": "KMCInteractions", "processes": seq(rng, procs), "implicit_wildcards": NONE if rng.random() < 0.5 else leaf("bool", s["implicit"]),
         "calculator": leaf("class") if rng.random() < 0.2 else NONE}
    opt = lambda x: x if rng.random() < 0.5 else NONE
    timed = rng.random() < 0.3
    ctl = {"k": "KMCControlParameters", "number_of_steps": leaf("int", rng.choice([0, 1, 3])), "dump_interval": NONE if timed else opt(leaf("int", rng.choice([1, 2, 5]))),
           "analysis_interval": opt(leaf("int", rng.choice([1, 2]))), "seed": opt(leaf("int", rng.choice([0, 1, 99]))),
           "dump_time_interval": fl(rng.choice([1, 7])) if timed else NONE, "rng_type": opt(leaf("str", rng.choice(["MT", "MINSTD", "RANLUX24", "RANLUX48"])))}
    an = [rng.choice([{"k": "KMCAnalysisPlugin"}, {"k": "Composition", "time_interval": opt(fl(3))}, {"k": "TimeStepDistribution", "binsize": opt(fl(2))},
                      {"k": "ProcessStatistics", "processes": seq(rng, [leaf("int", 0)]), "time_interval": opt(fl(5)), "spatially_resolved": opt(leaf("bool", 1))}])
          for _ in range(rng.choice([1, 2]))]
    run = {"control_parameters": ctl, "trajectory_filename": opt(leaf("str", "t.tr")), "trajectory_type": opt(leaf("str", rng.choice(["lattice"] if bucket else ["lattice", "xyz"]))),
           "analysis": opt(seq(rng, an)), "breakers": opt(seq(rng, [{"k": "KMCBreakerPlugin"}]))}
    possible = strs(names + (["Q"] if rng.random() < 0.2 else []))
    rng.shuffle(possible["v"])
    return {"model": {"configuration": {"k": "KMCConfiguration", "lattice": L, "types": types, "possible_types": possible, "default_type": default},
                      "interactions": I}, "run": run}


def spots(x, path=()):
    """All nodes of a description, by the keys that lead to them."""
    out = []
    if isinstance(x, dict):
        if "k" in x:
            out.append(path)
        for k, v in x.items():
            if k != "k" and isinstance(v, (dict, list)):
                out += spots(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out += spots(v, path + (i,))
    return out


def other(rng, x):
    """Something to have in the place of x."""
    k = x["k"]
    r = rng.random()
    if k in ("list", "tuple", "array") and r < 0.7:
        v = list(x["v"])
        how = rng.choice(["drop", "twice", "add", "swap", "kind", "empty", "none"])
        if how == "drop" and v:
            v.pop(rng.randrange(len(v)))
        elif how == "twice" and v:
            v.append(v[rng.randrange(len(v))])
        elif how == "add":
            v.insert(rng.randrange(len(v) + 1), stray(rng))
        elif how == "swap" and len(v) > 1:
            i, j = rng.sample(range(len(v)), 2)
            v[i], v[j] = v[j], v[i]
        elif how == "kind":
            return {"k": rng.choice(["list", "tuple"]), "v": v}
        elif how == "empty":
            v = []
        else:
            return NONE
        return {"k": k if k != "array" else "list", "v": v}
    if k in ("int", "npint") and r < 0.7:
        return leaf(k, rng.choice([-1, 0, 1, 2, 3, x["v"] + 1, x["v"] - 1, -x["v"]]))
    if k == "float" and r < 0.7:
        return leaf(k, rng.choice([0, -1, 12, -12, x["v"] + 1, x["v"] + 12, x["v"] - 12, -x["v"], 11]))
    if k == "str" and r < 0.6:
        return leaf(k, rng.choice(["*", "A", "B", "V", "Z", "Q", "", "lattice", "mt"]))
    return stray(rng)


def stray(rng):
    return rng.choice([NONE, leaf("obj"), leaf("str", "A"), leaf("str", ""), leaf("str", "*"), leaf("int", 0), leaf("int", 1), leaf("int", -1), leaf("float", 0), leaf("float", 12), leaf("float", -6),
                       leaf("nan"), leaf("bool", 0), leaf("bool", 1), {"k": "list", "v": []}, {"k": "tuple", "v": []}, {"k": "list", "v": [leaf("int", 1)]},
                       {"k": "tuple", "v": [leaf("int", 1), leaf("str", "A")]}, {"k": "tuple", "v": [leaf("str", "A"), leaf("int", 1)]}, leaf("plain"), {"k": "KMCBreakerPlugin"}, {"k": "KMCAnalysisPlugin"},
                       {"k": "list", "v": [fl(0), fl(0), fl(0)]}])


def put(x, path, v):
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v


def mutated(rng, x, times):
    x = json.loads(json.dumps(x))
    for _ in range(times):
        ps = [p for p in spots(x) if p]
        # choose the part first, so that long lists do not take all the mutations
        depth = rng.choice([2, 3, 4, 5, 6, 7, 9])
        ps = [p for p in ps if len(p) <= depth] or ps
        top = rng.choice(sorted(set(p[:4] for p in ps), key=str))
        p = rng.choice([q for q in ps if q[:4] == top])
        node = x
        for k in p:
            node = node[k]
        put(x, p, other(rng, node))
    return plainer(x)


def numeric(x):
    """0: not an array; else the shape of the plain numpy array that x can be."""
    if x["k"] in ("float", "nan"):
        return ("f",)
    if x["k"] == "npint":
        return ("i",)
    if x["k"] != "array" or not x["v"]:
        return 0
    s = [numeric(e) for e in x["v"]]
    return (len(s),) + s[0] if all(s) and len(set(s)) == 1 else 0


def plainer(x):
    """Arrays that numpy would make something else of are lists."""
    if isinstance(x, list):
        return [plainer(e) for e in x]
    if not isinstance(x, dict):
        return x
    x = {k: plainer(v) for k, v in x.items()}
    if x.get("k") == "array" and not numeric(x):
        x["k"] = "list"
    return x
