"""Walks over all steps of all reachable states of small models: TLC enumerates them (KMCGraph.tla),
the real code is led along them with chosen random numbers."""
import json, re
from concurrent.futures import ThreadPoolExecutor
import gen

EDGE = re.compile(r'^<<"EDGE", (\d+), "(.*)">>$')


def small(rng, bucket=False, custom=False, ids=None, most=130, variant=False, **kw):
    """A model with few states."""
    while True:
        nt = 2 if bucket or rng.random() < 0.7 else 3
        s = gen.model(rng, **{**dict(dim=rng.choice([1, 1, 2]), nb=rng.choice([1, 1, 2]), nt=nt, small_p=0.5, bucket=bucket, custom=custom,
                                     nproc=rng.choice([2, 3]), maxcount=2, back_p=0.9), **kw})
        if variant:
            s = gen.variant(rng, s)
        n = gen.nsites(s["lat"])
        if bucket:
            if n > 3 or len(s["procs"]) > 6:
                continue
            s["occ"] = [[rng.choice([0, 1, 1, 2]) for c in o] for o in s["occ"]]
            if any(max(e["m"]) > 1 for p in s["procs"] for e in p["ents"]) and rng.random() < 0.8:
                continue
        elif nt ** n > (most // 2 if custom else most) or n < 2:
            continue
        if ids is None:
            ids = not bucket and n <= 3 and rng.random() < 0.5
        if ids and n > 5:
            continue
        return {"s": s, "ids": int(ids), "max": 2}


def enumerate_models(ck, models, width=8):
    """Per model: its graph {state: [[q, i, next, weights], ..]} by the specification."""
    graphs = [dict() for _ in models]

    def work(part):
        import os, tempfile
        fd, path = tempfile.mkstemp(dir=ck.work, suffix=".json")
        with os.fdopen(fd, "w") as f:
            json.dump([models[k] for k in part], f)
        out = ck.model("KMCGraph.tla", "KMCGraph.cfg", workers=1, heap="3g", env={"KMCV_MODELS": path})
        for line in out.split("\n"):
            g = EDGE.match(line)
            if g:
                e = json.loads(g.group(2).replace('\\"', '"'))
                graphs[part[int(g.group(1)) - 1]].setdefault(key(e["a"]), []).append([e["q"], e["i"], key(e["b"]), e["w"]])
        os.unlink(path)
    parts = [list(range(k, len(models), width)) for k in range(width)]
    with ThreadPoolExecutor(width) as ex:
        list(ex.map(work, [p for p in parts if p]))
    return graphs


def key(st):
    return json.dumps(st, separators=(",", ":"))


def jobs(ck, name, n, **kw):
    models = [small(ck.rng("graph", name, i), **kw) for i in range(n)]
    graphs = enumerate_models(ck, models)
    out = []
    for i, (m, g) in enumerate(zip(models, graphs)):
        if g:
            out.append({"kind": "tour", "id": "%s-%d" % (name, i), "s": m["s"], "ids": m["ids"], "graph": g, "seed": i})
    return out
