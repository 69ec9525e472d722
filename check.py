#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]: decide one property.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the machinery itself failed."""
import argparse, importlib, json, os, random, subprocess, sys, time, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from lib import vlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")


def load(pid):
    from checks import CHECKS
    return CHECKS[pid]


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                k = json.loads(line)
                if k.get("kind") == "finding" and k["property"] == pid:
                    out.append(k)
    return out


def drive(pid, outdir, group, plist, limit, tag):
    """Run the scenarios on the real code, in parallel worker processes."""
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + ":" + ROOT, MPLBACKEND="Agg", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONWARNINGS="ignore")
    env.pop("PYTHONPYCACHEPREFIX", None)
    inp = os.path.join(outdir, f"{tag}.params.json")
    outp = os.path.join(outdir, f"{tag}.real.json")
    json.dump(dict(pid=pid, group=group, limit=limit, params=plist), open(inp, "w"))
    p = subprocess.run([vlib.PY, "-m", "lib.driver_main", inp, outp], cwd=ROOT, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0 or not os.path.exists(outp):
        raise vlib.Machinery(f"driver for {pid}/{tag} failed:\n" + p.stdout[-3000:])
    return json.load(open(outp))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-mc", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    chk = load(a.id)
    outdir = os.path.join(ROOT, "out", a.id)
    shutil.rmtree(outdir, ignore_errors=True) if not a.replay else None
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        return work(a, chk, outdir, tier, seed, t0)
    except vlib.Machinery as e:
        print("MACHINERY " + str(e), file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print("MACHINERY timeout " + str(e)[:300], file=sys.stderr)
        return 2


def work(a, chk, outdir, tier, seed, t0):
    pid = a.id
    if a.replay:
        rp = json.load(open(a.replay))
        groups = [dict(name=rp["group"], spec=rp["spec"], params=[rp["params"]])]
        mods = []
    else:
        mods = [] if a.no_mc else chk.models(tier)
        groups = None
    stats = []
    with ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(vlib.model_check, outdir, m) for m in mods]
        if groups is None:
            gens = {}
            for g in chk.generators(tier, seed):
                objs, st = vlib.generate(outdir, g)
                gens[g["name"]] = objs
                stats.append(st)
            groups = chk.groups(tier, seed, gens)
        results = []
        for gi, g in enumerate(groups):
            if not g["params"]:
                continue
            real = drive(pid, outdir, g["name"], g["params"], g.get("limit", 120), g["name"])
            verdicts, s, t = vlib.validate(outdir, "trace_" + g["name"], g["spec"], real,
                                           shards=g.get("shards", 4))
            stats.append(dict(model="trace:" + g["name"], states=s, transitions=t, traces=len(real)))
            results.append((g, real, verdicts))
        stats += [f.result() for f in futs]
    # verdict
    viols, known, foreign = [], {}, 0
    kf = known_findings(pid)
    for g, real, verdicts in results:
        for idx, bad in enumerate(verdicts):
            mine = [b for b in bad if chk.owns(b[1])]
            foreign += len(bad) - len(mine)
            if not mine:
                continue
            new = []
            for b in mine:
                k = chk.match_known(kf, g["params"][idx], b[1])
                if k is None:
                    new.append(b)
                else:
                    known[k["id"]] = k
            if new:
                viols.append((g, idx, new, real[idx]))
    for k in known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    missing_kf = [k for k in kf if k["id"] not in known]
    nt = sum(len(r[1]) for r in results)
    samples = []
    for g, real, _ in results:
        for r in real[:: max(1, len(real) // 2)][:2]:
            samples.append(json.loads(json.dumps(dict(group=g["name"], trace=r))[:200000])
                           if len(json.dumps(r)) < 6000 else dict(group=g["name"], trace_head=json.dumps(r)[:1500]))
    cov = dict(states=sum(s["states"] for s in stats), transitions=sum(s["transitions"] for s in stats),
               traces_validated_against_impl=nt,
               events_validated=sum(len(x["ev"]) for r in results for x in r[1]),
               per_model=stats, samples=samples[:6])
    if not a.replay:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=chk.assumptions, wall_s=round(time.time() - t0, 2),
                       violations=len(viols)),
                  open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if viols:
        for n, (g, idx, bad, real) in enumerate(viols[:5]):
            rp = os.path.join(outdir, f"violation_{n}.json")
            json.dump(dict(property=pid, group=g["name"], spec=g["spec"], params=g["params"][idx],
                           seed=seed, violated=bad, trace=real), open(rp, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={rp}")
            print("  clauses: " + ", ".join(sorted({b[1] for b in bad}))
                  + f" (events {sorted({b[0] for b in bad})[:5]})")
            for b in bad[:1]:
                try:
                    print("  event: " + json.dumps(real["ev"][b[0] - 1])[:700])
                except Exception:
                    pass
        print(f"  {len(viols)} violating scenarios of {nt}")
        return 1
    print(f"OK property={pid} tier={tier} states={cov['states']} traces={nt} events={cov['events_validated']} wall={time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
