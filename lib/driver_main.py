"""Worker: executes scenarios on the real code (imported from /repo)."""
import importlib, json, multiprocessing as mp, os, sys, warnings
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from concurrent.futures.process import BrokenProcessPool
warnings.filterwarnings("ignore")


def init():
    import qermit  # noqa: F401


def task(args):
    fnmod, fnname, params, limit = args
    from lib.vlib import run_one
    m = importlib.import_module(fnmod)
    return run_one(getattr(m, fnname), params, limit)


def tasks(part):
    return [task(w) for w in part]


def alone(w):
    """One scenario in a process of its own."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        with os.fdopen(wr, "w") as f:
            json.dump(task(w), f)
        os._exit(0)
    os.close(wr)
    with os.fdopen(r) as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not data:
        return {"ev": [{"op": "crash", "exc": "process ended", "msg": "status %d" % st, "tb": ""}]}
    return json.loads(data)


def main():
    inp, outp = sys.argv[1:3]
    job = json.load(open(inp))
    from checks import CHECKS
    chk = CHECKS[job["pid"]]
    mod, fn = chk.executor(job["group"])
    import qermit
    repo = os.environ.get("VERIF_REPO", "/repo")
    assert qermit.__path__[0].startswith(repo), qermit.__path__
    importlib.import_module(mod)
    work = [(mod, fn, p, job["limit"]) for p in job["params"]]
    n = min(8, len(work))
    if n <= 1:
        res = [task(w) for w in work]
    else:
        # not daemonic: code under test may start processes of its own
        size = max(1, min(50, len(work) // (n * 4)))
        parts = [work[k:k + size] for k in range(0, len(work), size)]
        res = []
        with ProcessPoolExecutor(n, mp_context=mp.get_context("fork")) as pool:
            fs = [pool.submit(tasks, part) for part in parts]
            for f, part in zip(fs, parts):
                try:
                    res += f.result()
                except BrokenProcessPool:
                    res += [None] * len(part)
        # a process was lost: find out which scenario ends it
        left = [k for k, r in enumerate(res) if r is None]
        with ThreadPoolExecutor(n) as pool:
            for k, r in zip(left, pool.map(alone, [work[k] for k in left])):
                res[k] = r
    json.dump(res, open(outp, "w"))


if __name__ == "__main__":
    main()
