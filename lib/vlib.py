"""Harness shared by all checks: runs TLC on the design models, obtains
scenarios (from TLC or seeded generators), executes them on the code in /repo,
and has TLC validate the recorded traces against the specification."""
import json, os, re, subprocess, sys, time, shutil, signal, traceback, random, importlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The checker itself failed; nothing can be said about the code."""


def tlc(outdir, name, spec, cfg, workers=4, env=None, timeout=600, extra=(), heap="3g"):
    meta = os.path.join(outdir, "tlc_" + name)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cfgp = os.path.join(meta, name + ".cfg")
    open(cfgp, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp, *extra,
           os.path.join(SPEC, spec + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out on {spec}/{name}")
    open(os.path.join(outdir, name + ".tlc.log"), "w").write(p.stdout[-400000:])
    return p.returncode, p.stdout


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(outdir, m):
    """Design model: the properties hold on the specification itself."""
    rc, out = tlc(outdir, m["name"], m["spec"], m["cfg"], workers=m.get("workers", 4),
                  timeout=m.get("timeout", 600), extra=m.get("extra", ()), env=m.get("env"))
    g = STATS.findall(out)
    if rc != 0 or "No error has been found" not in out or not g:
        raise Machinery(f"model {m['name']} rejected by TLC (rc {rc}):\n" + out[-3000:])
    states = int(g[-1][1]); trans = int(g[-1][0])
    floor = m.get("min_states", 2)
    if states < floor:
        raise Machinery(f"model {m['name']} is vacuous: {states} states < {floor}")
    return dict(model=m["name"], states=states, transitions=trans)


def tlc_lines(out, tag):
    r = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            r.append(s[len(tag) + 1:])
    return r


def generate(outdir, g):
    """Scenarios enumerated (or simulated) by TLC from the specification."""
    rc, out = tlc(outdir, g["name"], g["spec"], g["cfg"], workers=g.get("workers", 4),
                  timeout=g.get("timeout", 600), extra=g.get("extra", ()), env=g.get("env"))
    lines = tlc_lines(out, "GEN")
    if not lines:
        raise Machinery(f"generator {g['name']} gave nothing:\n" + out[-3000:])
    g_ = STATS.findall(out)
    objs = []
    seen = set()
    for l in lines:
        if l not in seen:
            seen.add(l)
            objs.append(json.loads(l))
    objs.sort(key=lambda o: json.dumps(o, sort_keys=True))
    return objs, dict(model=g["name"], states=int(g_[-1][1]) if g_ else len(objs),
                      transitions=int(g_[-1][0]) if g_ else len(objs))


def validate(outdir, name, spec, scenarios, shards=4, timeout=800, cfg=None):
    """TLC checks every recorded scenario against the trace specification."""
    cfg = cfg or "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
    n = len(scenarios)
    shards = max(1, min(shards, (n + 49) // 50))
    parts = [list(range(k, n, shards)) for k in range(shards)]

    def attempt(tag, idxs):
        path = os.path.join(outdir, f"{name}_{tag}.ndjson")
        with open(path, "w") as f:
            for j in idxs:
                f.write(json.dumps(scenarios[j]) + "\n")
        rc, out = tlc(outdir, f"{name}_{tag}", spec, cfg, workers=max(1, 8 // shards),
                      env={"TRACE": path}, timeout=timeout)
        got = {}
        for l in tlc_lines(out, "VERDICT"):
            v = json.loads(l)
            got[idxs[v["sc"] - 1]] = v["bad"]
        g = STATS.findall(out)
        s, t = (int(g[-1][1]), int(g[-1][0])) if g else (0, 0)
        ok = rc == 0 and len(got) == len(idxs)
        if not ok and not g:
            raise Machinery(f"trace validation {name}_{tag}: rc {rc}\n" + brief(out))
        return ok, got, s, t, out

    def one(k):
        ok, got, s, t, out = attempt(k, parts[k])
        if ok:
            return got, s, t
        # some event cannot even be evaluated against the specification:
        # find it, so that it is named and the other scenarios keep their verdict
        for rnd in range(6):
            rest = [j for j in parts[k] if j not in got]
            if not rest:
                break
            m = re.findall(r"^/\\ sc = (\d+)", out, re.M)
            single = [rest[0]]
            if m and rnd == 0 and int(m[-1]) <= len(parts[k]):
                single = [parts[k][int(m[-1]) - 1]]
            ok1, g1, _, _, out1 = attempt(f"{k}_s", single)
            got.update(g1)
            if not ok1:
                got[single[0]] = [[0, "Unexplainable: " + brief(out1, 300)]]
            rest = [j for j in rest if j not in got]
            if not rest:
                break
            ok2, g2, s2, t2, _ = attempt(f"{k}_r", rest)
            got.update(g2)
            s, t = s + s2, t + t2
            if ok2:
                break
        for j in parts[k]:
            got.setdefault(j, [])
        return got, s, t

    verdict, states, trans = {}, 0, 0
    with ThreadPoolExecutor(shards) as ex:
        for v, s, t in ex.map(one, range(shards)):
            verdict.update(v)
            states += s
            trans += t
    return [sorted(map(tuple, verdict[j])) for j in range(n)], states, trans


def brief(out, n=1200):
    m = re.search(r"Reason:\n(.*?)\n\d+ states", out, re.S) or re.search(r"(Error:.*)", out, re.S)
    return (m.group(1) if m else out[-n:])[:n].replace("\n", " ")


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout("scenario took too long")


def run_one(fn, params, limit):
    """Execute one scenario on the real code; anything it raises is an event."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(params)
    except Exception as e:  # noqa
        tb = traceback.format_exc()[-1500:]
        return {"ev": [{"op": "crash", "exc": type(e).__name__, "msg": str(e)[:300], "tb": tb}]}
    finally:
        signal.alarm(0)
