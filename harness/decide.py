"""What each check does."""
import itertools, json, os, random
import gen, graph

DECIDE = {}


def decides(pid):
    def f(g):
        DECIDE[pid] = g
        return g
    return f


# ---------------------------------------------------------------- walks through random models
def walks(ck, name, n, steps, variant_p=0.0, **kw):
    jobs = []
    for i in range(n):
        rng = ck.rng("walk", name, i)
        s = gen.model(rng, **{"scales": True, **kw})
        if rng.random() < variant_p:
            s = gen.variant(rng, s)
        jobs.append({"kind": "walk", "id": "%s-%d" % (name, i), "s": s,
                     "steps": gen.draws(rng, steps, bool(s["custom"]["use"]))})
    return jobs


def seeded(ck, name, n, steps, tags, **kw):
    """Runs with the seeded generators, of which the harness knows the numbers."""
    jobs = []
    for i in range(n):
        rng = ck.rng("seeded", name, i)
        s = gen.model(rng, **{"scales": True, **kw})
        kind = lambda: rng.choice(["MT", "MINSTD", "RANLUX24", "RANLUX48"])
        seed = lambda: rng.choice([0, 1, 2, 65536, 65537, 2 ** 31 - 1, 2 ** 31 - 2, rng.randrange(2 ** 31)])
        jobs.append({"kind": "seeded", "id": "%s-%d" % (name, i), "s": s, "n": rng.choice([1, steps, steps, 3 * steps]), "rng": kind(), "seed": seed(),
                     "before": [[kind(), seed()] for _ in range(rng.choice([0, 0, 1, 2]))]})
    walk_check(ck, jobs, tags)


def walk_check(ck, jobs, tags):
    ck.judge_jobs("KMCTrace", jobs, ck.record(jobs), set(tags))


def pairs(ck, name, n, steps, tags, **kw):
    """Two models that live in the same process; every other time they differ in little."""
    jobs = []
    for i in range(n):
        rng = ck.rng("pair", name, i)
        s = gen.model(rng, **{"scales": True, **kw})
        s2 = json.loads(json.dumps(s)) if i % 2 else gen.model(rng, **{"scales": True, **kw})
        if i % 2:
            gen.sibling(rng, s2)
        st = [gen.draws(rng, steps, bool(x["custom"]["use"])) for x in (s, s2)]
        jobs.append({"kind": "pair", "id": "%s-%d" % (name, i), "s": s, "s2": s2, "steps": st[0], "steps2": st[1], "early": i // 2 % 2})
    judge_parts(ck, jobs, tags)


def shared(ck, name, n, steps, tags, **kw):
    """Two models with parts in common, living together or taking turns with one configuration."""
    jobs = []
    for i in range(n):
        rng = ck.rng("shared", name, i)
        s = gen.model(rng, **{"scales": True, **kw})
        draw = lambda x, k: gen.draws(rng, k, bool(x["custom"]["use"]))
        share = rng.choice(["lattice", "procs", "inter", "inter", "config", "config"])
        if share == "config":
            models = [s] + [gen.partner(rng, s, share, **kw) for _ in range(rng.choice([1, 1, 2]))]
            turns, last = [], None
            for _ in range(rng.choice([3, 4, 6])):
                who = rng.randrange(len(models))
                turns.append([who, draw(models[who], rng.choice([1, 2, steps]))])
            jobs.append({"kind": "byturns", "id": "%s-%d" % (name, i), "models": models, "turns": turns, "s": s})
        else:
            s2 = gen.partner(rng, s, share, **kw)
            jobs.append({"kind": "pair", "id": "%s-%d" % (name, i), "s": s, "s2": s2, "steps": draw(s, steps), "steps2": draw(s2, steps),
                         "share": [share], "early": int(rng.random() < 0.5)})
    judge_parts(ck, jobs, tags)


def judge_parts(ck, jobs, tags):
    res = ck.record(jobs)
    ck.crashes(jobs, res)
    js, rs = [], []
    for j, r in zip(jobs, res):
        if "crash" not in r:
            for k, x in enumerate(r["both"]):
                js.append({**j, "id": "%s-%d" % (j["id"], k)})
                rs.append(x if "s" in x else {**x, "s": j["s2"] if k else j["s"]})
    ck.judge_jobs("KMCTrace", js, rs, set(tags))


def tours(ck, name, n, tags, **kw):
    """All steps of all reachable states of small models."""
    jobs = graph.jobs(ck, name, n, **kw)
    res = ck.record(jobs)
    ck.crashes(jobs, res)
    js, rs = [], []
    steps = cov = 0
    for j, r in zip(jobs, res):
        if "crash" in r:
            continue
        steps += r["total"]
        cov += r["covered"]
        plain = {k: v for k, v in j.items() if k != "graph"}
        for k, obs in enumerate(r["runs"]):
            js.append({**plain, "id": "%s-%d" % (j["id"], k)})
            rs.append({"obs": obs, "steps": 0, "end": ""})
    ck.judge_jobs("KMCTrace", js, rs, set(tags))
    c = ck.notes.setdefault("steps_of_all_reachable_states", {"enumerated": 0, "taken_by_the_code": 0, "models": 0})
    c["enumerated"] += steps
    c["taken_by_the_code"] += cov
    c["models"] += len(jobs)


@decides("C01")
def c01(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "gen", 500 * n, 10, small_p=0.1)
    jobs += walks(ck, "wide", 60 * n, 8, dim=1, reach=2, open_p=0.1)
    jobs += walks(ck, "bucket", 100 * n, 8, bucket=True)
    jobs += walks(ck, "custom", 60 * n, 8, custom=True)
    jobs += walks(ck, "long", 20 * n, 60, open_p=0.2)
    jobs += walks(ck, "fine", 80 * n, 8, fine_p=1.0, small_p=0.1)
    walk_check(ck, jobs, ["avail", "sound", "edge", "twice", "count", "end"])
    pairs(ck, "two", 40 * n, 8, ["avail", "sound", "edge", "twice", "count", "end"])
    shared(ck, "parts", 150 * n, 6, ["avail", "sound", "edge", "twice", "count", "end", "event", "occ0"])
    tours(ck, "all", 12 * n, ["avail", "sound", "edge", "twice", "count"], most=ck.scaled(130, 1030))


@decides("C02")
def c02(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "gen", 500 * n, 10, small_p=0.05)
    jobs += walks(ck, "bucket", 150 * n, 10, bucket=True)
    jobs += walks(ck, "long", 20 * n, 60, open_p=0.2)
    walk_check(ck, jobs, ["event", "apply", "local", "types", "ppt", "negative", "single", "occ0", "end"])
    tours(ck, "all", 8 * n, ["event", "apply", "local", "types", "ppt", "negative", "single", "occ0"], most=ck.scaled(130, 1030))


@decides("C03")
def c03(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "gen", 300 * n, 10, small_p=0.1)
    jobs += walks(ck, "bucket", 80 * n, 10, bucket=True)
    jobs += walks(ck, "custom", 150 * n, 10, custom=True, zero_p=0.3)
    jobs += walks(ck, "long", 20 * n, 80, open_p=0.2)
    walk_check(ck, jobs, ["prate", "rate", "count", "end"])


@decides("C05")
def c05(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "gen", 300 * n, 12)
    jobs += walks(ck, "bucket", 80 * n, 12, bucket=True)
    jobs += walks(ck, "custom", 120 * n, 12, custom=True, zero_p=0.3)
    walk_check(ck, jobs, ["time", "advance", "end"])
    seeded(ck, "seeded", 120 * n, 12, ["time", "advance", "end"])
    seeded(ck, "seededc", 40 * n, 12, ["time", "advance", "end"], custom=True, zero_p=0.3)


@decides("C06")
def c06(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "open", 350 * n, 8, open_p=0.85)
    jobs += walks(ck, "small", 150 * n, 8, open_p=0.4, small_p=0.7)
    jobs += walks(ck, "bucket", 80 * n, 8, open_p=0.7, bucket=True, small_p=0.2)
    jobs += walks(ck, "wide", 80 * n, 8, dim=1, reach=2, open_p=0.6)
    jobs += walks(ck, "fine", 60 * n, 8, fine_p=1.0, open_p=0.5, small_p=0.2)
    walk_check(ck, jobs, ["avail", "sound", "edge", "event", "apply", "local"])
    tours(ck, "all", 12 * n, ["avail", "sound", "edge", "event", "apply", "local"], open_p=0.6, most=ck.scaled(130, 1030))


@decides("C07")
def c07(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "wild", 300 * n, 8, variant_p=1.0, wild_p=0.6, styles=["catalysed", "swap", "cycle", "change"])
    jobs += walks(ck, "explicit", 150 * n, 8, variant_p=1.0, wild_p=0.5, implicit=False)
    jobs += walks(ck, "bucket", 120 * n, 8, variant_p=1.0, wild_p=0.5, bucket=True)
    jobs += walks(ck, "custom", 60 * n, 8, variant_p=1.0, wild_p=0.3, custom=True)
    jobs += walks(ck, "fine", 60 * n, 8, fine_p=1.0, variant_p=1.0, wild_p=0.4)
    walk_check(ck, jobs, ["avail", "sound", "edge", "event", "apply", "ids", "idpos", "moved", "prate", "env"])
    tours(ck, "all", 8 * n, ["avail", "sound", "edge", "event", "apply", "ids", "idpos", "moved"], variant=True, wild_p=0.6, most=ck.scaled(130, 520))


@decides("C08")
def c08(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "gen", 350 * n, 12, styles=["swap", "auto", "cycle", "concert", "catalysed"], small_p=0.05)
    jobs += walks(ck, "mixed", 100 * n, 12)
    jobs += walks(ck, "long", 30 * n, 60, styles=["swap", "cycle", "concert"], open_p=0.1)
    jobs += walks(ck, "fine", 120 * n, 12, fine_p=1.0, styles=["cycle", "cycle", "concert", "swap", "auto", "catalysed"])
    walk_check(ck, jobs, ["ids", "idpos", "idperm", "idtype", "moved", "id0", "pos0"])
    shared(ck, "parts", 60 * n, 6, ["ids", "idpos", "idperm", "idtype", "moved"])
    tours(ck, "all", 12 * n, ["ids", "idpos", "idperm", "idtype", "moved"], ids=True, styles=["swap", "auto", "cycle", "concert"], open_p=0.1, dim=1)


@decides("C09")
def c09(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "plain", 250 * n, 8, custom=True, cache=False)
    jobs += walks(ck, "cached", 60 * n, 8, custom=True, cache=True)
    jobs += walks(ck, "open", 80 * n, 6, custom=True, open_p=0.8, small_p=0.3)
    jobs += walks(ck, "bucket", 80 * n, 6, custom=True, bucket=True)
    jobs += walks(ck, "wide", 40 * n, 5, dim=1, custom=True, cutoffs=[25, 30, 36, 37])
    jobs += walks(ck, "fine", 60 * n, 6, fine_p=1.0, custom=True)
    walk_check(ck, jobs, ["env"])


@decides("C10")
def c10(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "plain", 300 * n, 12, custom=True, cache=False, zero_p=0.2)
    jobs += walks(ck, "open", 60 * n, 8, custom=True, cache=False, open_p=0.8, small_p=0.2)
    jobs += walks(ck, "bucket", 80 * n, 8, custom=True, cache=False, bucket=True)
    jobs += walks(ck, "wide", 60 * n, 10, dim=1, custom=True, cache=False, cutoffs=[25, 30, 36, 37])
    jobs += walks(ck, "fine", 40 * n, 8, fine_p=1.0, custom=True, cache=False)
    walk_check(ck, jobs, ["prate", "rate", "env"])
    pairs(ck, "two", 30 * n, 8, ["prate", "rate", "env"], custom=True, cache=False)
    shared(ck, "parts", 40 * n, 6, ["prate", "rate", "env", "end"], custom=True, cache=False)
    tours(ck, "all", 12 * n, ["prate", "rate", "env"], custom=True, cache=False, ids=False, most=ck.scaled(130, 520))


@decides("C11")
def c11(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "cached", 350 * n, 12, custom=True, cache=True, zero_p=0.2)
    jobs += walks(ck, "bucket", 80 * n, 12, custom=True, cache=True, bucket=True)
    jobs += walks(ck, "multi", 80 * n, 12, custom=True, cache=True, nb=3)
    jobs += walks(ck, "fine", 60 * n, 12, fine_p=1.0, custom=True, cache=True)
    walk_check(ck, jobs, ["prate", "rate", "env"])
    pairs(ck, "two", 60 * n, 10, ["prate", "rate", "env"], custom=True, cache=True)
    shared(ck, "parts", 60 * n, 6, ["prate", "rate", "env", "end"], custom=True, cache=True)
    tours(ck, "all", 8 * n, ["prate", "rate", "env"], custom=True, cache=True, ids=False, most=ck.scaled(130, 520))


@decides("C12")
def c12(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "bucket", 400 * n, 12, bucket=True, small_p=0.1)
    jobs += walks(ck, "custom", 60 * n, 8, bucket=True, custom=True)
    jobs += walks(ck, "long", 30 * n, 50, bucket=True, open_p=0.2)
    jobs += walks(ck, "fine", 40 * n, 8, bucket=True, fine_p=1.0)
    walk_check(ck, jobs, ["avail", "sound", "edge", "twice", "event", "apply", "local", "types", "ppt", "negative", "occ0"])
    shared(ck, "parts", 60 * n, 6, ["avail", "sound", "edge", "twice", "event", "apply", "local", "types", "ppt", "negative", "occ0"], bucket=True)
    tours(ck, "all", 50 * n, ["avail", "sound", "edge", "twice", "event", "apply", "local", "types", "ppt", "negative"], bucket=True)


@decides("C04")
def c04(ck):
    jobs = []
    for i in range(ck.scaled(70, 700)):
        rng = ck.rng("select", i)
        custom, bucket = i % 3 == 0, i % 4 == 1
        s = gen.model(rng, dim=rng.choice([1, 1, 2]), nproc=rng.choice([1, 2, 3, 4]), custom=custom, bucket=bucket, zero_p=0.5 if custom else 0, mods=[7, 13, 29])
        steps = gen.draws(rng, 10, custom)
        jobs.append({"kind": "select", "id": "sel-%d" % i, "s": s, "steps": steps, "limit": 500,
                     "at": sorted(rng.sample(range(1, 11), 2))})
    ck.judge_jobs("SelectTrace", jobs, ck.record(jobs), {"share", "siteshare", "missing", "extreme"})


# ---------------------------------------------------------------- the main loop
def loops(ck, name, n, mode, **kw):
    jobs = []
    for i in range(n):
        rng = ck.rng("loop", name, i)
        jobs.append({"kind": "loop", "id": "%s-%d" % (name, i), "s": gen.loop_model(rng, mode, **kw),
                     "clock": rng.choice([0.0, 0.0, 400.0, 1000.0, 2000.0])})
    return jobs


def loop_check(ck, jobs, tags):
    ck.judge_jobs("RunTrace", jobs, ck.record(jobs), set(tags), extra=lambda j, r: {"world": r["world"]})


@decides("C14")
def c14(ck):
    ck.model("RunMC.tla", ck.scaled("RunMCsq.cfg", "RunMCs.cfg"))
    n = ck.scaled(1, 12)
    jobs = loops(ck, "steps", 250 * n, "steps") + loops(ck, "breakers", 200 * n, "breakers") + loops(ck, "times", 50 * n, "times")
    loop_check(ck, jobs, ["calls", "callstep", "calltime", "callconf", "end", "final"])


@decides("C15")
def c15(ck):
    ck.model("RunMC.tla", ck.scaled("RunMCsq.cfg", "RunMCs.cfg"))
    n = ck.scaled(1, 12)
    jobs = loops(ck, "lattice", 150 * n, "steps", tr="lattice") + loops(ck, "xyz", 150 * n, "steps", tr="xyz", bucket=False)
    jobs += loops(ck, "bucket", 80 * n, "steps", tr="lattice", bucket=True) + loops(ck, "ends", 60 * n, "ends", tr="lattice")
    loop_check(ck, jobs, ["recs", "head", "file", "prefix"])


@decides("C16")
def c16(ck):
    ck.model("RunMC.tla", ck.scaled("RunMCtq.cfg", "RunMCt.cfg"))
    n = ck.scaled(1, 12)
    jobs = loops(ck, "times", 350 * n, "times") + loops(ck, "second", 100 * n, "times", nruns=3)
    loop_check(ck, jobs, ["timerecs", "prefix", "file"])


@decides("C17")
def c17(ck):
    ck.model("RunMC.tla", ck.scaled("RunMCsq.cfg", "RunMCs.cfg"))
    n = ck.scaled(1, 12)
    jobs = loops(ck, "ends", 350 * n, "ends") + loops(ck, "breakers", 100 * n, "breakers")
    loop_check(ck, jobs, ["calls", "recs", "timerecs", "end", "file", "final"])


@decides("C19")
def c19(ck):
    ck.model("RunMC.tla", ck.scaled("RunMCtq.cfg", "RunMCs.cfg"))
    n = ck.scaled(1, 12)
    jobs = loops(ck, "more", 250 * n, "steps", nruns=3) + loops(ck, "times", 80 * n, "times", nruns=3) + loops(ck, "ends", 100 * n, "ends", nruns=3)
    loop_check(ck, jobs, ["calls", "callstep", "calltime", "callconf", "recs", "timerecs", "end", "final"])


# ---------------------------------------------------------------- the analysis tools
def stats_jobs(ck, n):
    jobs = []
    for i in range(n):
        rng = ck.rng("stats", i)
        jobs.append({"kind": "stats", "id": "stats-%d" % i, "s": gen.stats_model(rng, i % 5 == 4)})
    return jobs


def stats_check(ck, tags):
    ck.model("AnalysisMC.tla", ck.scaled("AnalysisMCq.cfg", "AnalysisMC.cfg"))
    jobs = stats_jobs(ck, ck.scaled(400, 5000))
    ck.judge_jobs("AnalysisTrace", jobs, ck.record(jobs), set(tags))


@decides("C20")
def c20(ck):
    stats_check(ck, ["msdcount", "msdsum", "msdtimes", "msdcutoff", "msdprint"])


@decides("C21")
def c21(ck):
    stats_check(ck, ["compdata", "comptimes", "compprint", "statprint", "statsites", "disthist", "distnorm", "disttimes", "distprint"])


# ---------------------------------------------------------------- the lattice
@decides("C13")
def c13(ck):
    ck.model("LatticeMC.tla", ck.scaled("LatticeMCq.cfg", "LatticeMC.cfg"))
    jobs = []
    for i in range(ck.scaled(400, 6000)):
        jobs.append({"kind": "latmap", "id": "lat-%d" % i, "s": gen.lattice_questions(ck.rng("lat", i))})
    ck.judge_jobs("LatMapTrace", jobs, ck.record(jobs), {"sites", "cart", "numbers", "global", "cells", "near", "super", "move", "wrap"})


# ---------------------------------------------------------------- notation and scripts
@decides("C22")
def c22(ck):
    n = ck.scaled(1, 12)
    jobs = walks(ck, "single", 250 * n, 4) + walks(ck, "bucket", 250 * n, 4, bucket=True) + walks(ck, "small", 60 * n, 4, small_p=0.6)
    jobs += walks(ck, "fine", 60 * n, 4, fine_p=1.0)
    for i, j in enumerate(jobs):
        j["s"].update(nota=ck.rng("nota", i).randrange(10 ** 6), spoil=i % 2)
    walk_check(ck, jobs, ["avail", "sound", "edge", "twice", "event", "apply", "types", "ppt", "occ0", "prate", "rate", "ids", "idpos", "id0", "pos0"])
    shared(ck, "parts", 60 * n, 4, ["avail", "sound", "edge", "twice", "event", "apply", "types", "ppt", "occ0", "prate", "rate", "ids", "idpos"])
    jobs = []
    for i in range(2500 * n):
        rng = ck.rng("inputs", i)
        x = gen.described(rng)
        jobs.append({"kind": "inputs", "id": "in-%d" % i, "s": {}, "x": gen.mutated(rng, x, rng.choice([0, 1, 1, 1, 1, 2]))})
    ck.judge_jobs("InputsTrace", jobs, ck.record(jobs), {"rejected", "accepted", "raised"})


@decides("C23")
def c23(ck):
    jobs = walks(ck, "script", ck.scaled(450, 5000), 6, styles=["swap", "auto", "cycle", "concert", "catalysed", "change", "one"], wild_p=0.3)
    for i, j in enumerate(jobs):
        rng = ck.rng("script", i)
        j.update(kind="script", how=rng.choice(["parts", "exec"]), before=rng.choice([0, 0, 3]))
        j["first"] = [{"raw": [rng.getrandbits(32), rng.getrandbits(32)]} for _ in range(3)]
    walk_check(ck, jobs, ["avail", "sound", "edge", "twice", "event", "apply", "local", "types", "ppt", "occ0", "prate", "rate", "time",
                          "ids", "idpos", "moved", "id0", "pos0"])


# ---------------------------------------------------------------- one seed, one history
HOWS = ["plain", "again", "observed", "company", "between", "bare", "hash", "nocache"]


@decides("C18")
def c18(ck):
    jobs, groups = [], []
    for i in range(ck.scaled(60, 900)):
        rng = ck.rng("hist", i)
        custom = rng.random() < 0.4
        s = gen.model(rng, custom=custom, bucket=rng.random() < 0.2, open_p=0.2)
        base = {"kind": "hist", "s": s, "n": rng.choice([3, 10, 25, 60]), "seed": rng.choice([1, 2, 7, 12345, 2 ** 31 - 1]),
                "rng": rng.choice(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"])}
        g = {"id": "hist-%d" % i, "same": [], "other": []}
        for how in HOWS:
            j = {**base, "how": how, "id": "hist-%d-%s" % (i, how)}
            if how == "nocache":
                if not (custom and s["custom"]["cache"]) or s["custom"]["kg"]:
                    continue
                j["s"] = {**s, "custom": {**s["custom"], "cache": 0}}
            g["same"].append(len(jobs))
            jobs.append(j)
        g["other"].append(len(jobs))
        jobs.append({**base, "how": "other", "id": "hist-%d-other" % i, "seed": base["seed"] + 1 if base["seed"] < 2 ** 31 - 1 else 5})
        groups.append(g)
    first = [k for k, j in enumerate(jobs) if j["how"] != "hash"]
    second = [k for k, j in enumerate(jobs) if j["how"] == "hash"]
    res = [None] * len(jobs)
    for part, seed in ((first, "0"), (second, "77")):
        for k, r in zip(part, ck.record([jobs[k] for k in part], hashseed=seed)):
            res[k] = r
    ck.crashes(jobs, res)
    gj, gr = [], []
    for g in groups:
        ks = g["same"] + g["other"]
        if any("crash" in res[k] for k in ks):
            continue
        entry = lambda k: {"how": jobs[k]["how"], "h": res[k]}
        gj.append({"id": g["id"], "s": {}, "jobs": [jobs[k] for k in ks]})
        gr.append({"obs": [{"same": [entry(k) for k in g["same"]], "other": [entry(k) for k in g["other"]]}]})
    seeded(ck, "seeded", ck.scaled(120, 1500), 20, ["time", "end"], scales=False)
    ck.judge_jobs("HistTrace", gj, gr, {"event", "time", "ended", "final", "end", "seed"})
    ck.traces = len(jobs)
