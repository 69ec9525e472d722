#!/usr/bin/env python3
"""seedtest.py ID... [--tests] [--nocheck]: confirm planted bugs in scratch copies."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
if not ids:
    ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = f"/tmp/seed/{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh(f"git -C /repo archive HEAD | tar x -C {w}", "/")
    demo = "bash " + os.path.join(d, "demo.sh")
    r0, o0 = sh(demo, w, t=300)
    ra, oa = sh(f"git init -q . && git apply {d}/patch.diff", w)
    r1, o1 = sh(demo, w, t=300)
    line = [i, meta["property"], f"clean={r0}", f"apply={ra}", f"bug={r1}"]
    if r0 or ra or not r1:
        line.append("\n" + (o0 if r0 else oa if ra else o1)[-600:])
    if "--tests" in sys.argv:
        rt, ot = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p order_slow_first --timeout=400 -n 8 --maxschedchunk 1 tests",
                    w, dict(PYTHONPATH=w + ":/opt/vp", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"))
        line.append("tests: " + ot.strip().splitlines()[-1])
    if "--nocheck" not in sys.argv:
        rc, oc = sh(f"python3 check.py {meta['property']} --no-mc", ROOT, dict(VERIF_REPO=w))
        v = [l for l in oc.splitlines() if l.startswith("VIOLATION")]
        c = [l.strip() for l in oc.splitlines() if l.startswith("  clauses")]
        line.append(f"check={rc} {'CAUGHT' if v and rc == 1 else 'MISSED'} {c[:2]}" + ("" if rc in (0, 1) else oc[-500:]))
    print(" ".join(line), flush=True)
    shutil.rmtree(w, ignore_errors=True)
