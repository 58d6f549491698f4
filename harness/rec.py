"""Runs jobs against the real code, each in a process of its own, and writes what was observed.

usage: rec.py JOBS.json OUT.json      (with the interpreter and PYTHONPATH of the code under test)
A job is a dict with 'kind' and 'id'; the result of each is a JSON value, {"op": "exc", ...} style
observations included when the code raised or crashed.
"""
import json, os, signal, sys, time, traceback, importlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run_child(job, path, timeout):
    signal.alarm(timeout)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import kinds
    try:
        res = kinds.KINDS[job["kind"]](job)
    except BaseException:
        res = {"crash": "exception", "text": traceback.format_exc()[-2000:]}
    with open(path + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def main():
    jobs = json.load(open(sys.argv[1]))
    out = os.path.abspath(sys.argv[2])
    width = int(os.environ.get("KMCV_JOBS", "8"))
    timeout = int(os.environ.get("KMCV_JOB_TIMEOUT", "60"))
    saved = os.dup(1)           # the package prints a banner when it is imported
    os.dup2(2, 1)
    import kinds, loops, stats, latmap, hist, inputs         # load once, before forking
    sys.stdout.flush()
    os.dup2(saved, 1)
    scratch = out + ".d"
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    live = {}
    results = [None] * len(jobs)

    def reap():
        pid, status = os.wait()
        k = live.pop(pid)
        path = os.path.join(scratch, "r%d.json" % k)
        if os.path.exists(path):
            results[k] = json.load(open(path))
            os.unlink(path)
        else:
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else -os.WEXITSTATUS(status)
            results[k] = {"crash": "timeout" if sig == signal.SIGALRM else "signal %d" % sig, "text": ""}

    for k, job in enumerate(jobs):
        while len(live) >= width:
            reap()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            d = os.path.join(scratch, "w%d" % k)
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            run_child(job, os.path.join(scratch, "r%d.json" % k), timeout)
        live[pid] = k
    while live:
        reap()
    json.dump(results, open(out, "w"))


if __name__ == "__main__":
    main()
