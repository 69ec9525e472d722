"""Shot splitting, transpiler backend, post-selection, leakage detection."""
import random
from checks import Check, register

MC = "SPECIFICATION Spec\nCONSTANTS MaxReq = %d MaxShots = %d Limits = {%s} Gen = %s\nCHECK_DEADLOCK FALSE\n"


def split_models(tier):
    n, s, l = (3, 3, "1,2,3") if tier == "quick" else (4, 5, "1,2,3,4,5")
    return [dict(name="ShotSplit", spec="ShotSplitMC", min_states=500,
                 cfg=MC % (n, s, l, "FALSE") + "INVARIANTS JobsOK InOrder Covered MergedOK\n"
                 + ("PROPERTY Ends\n" if tier == "quick" else ""))]


def split_gens(tier, seed):
    n, s, l = (3, 5, "1,2,3,4,5") if tier == "quick" else (4, 5, "1,2,3,4,5,6")
    return [dict(name="gen", spec="ShotSplitMC", cfg=MC % (n, s, l, "TRUE"))]


def split_groups(tier, seed, gens):
    rng = random.Random(seed + 6)
    objs = gens["gen"]
    objs = rng.sample(objs, min(len(objs), 900 if tier == "quick" else 6000))
    ps = []
    for o in objs:
        m = rng.choice([1, 2, 3])
        ps.append(dict(req=[[rng.randint(1, m), s, rng.randint(1, 3)] for s in o["req"]], max=o["max"],
                       shuffle=rng.random() < .3, seed=rng.randint(0, 10**6), kind=rng.choice(["plain", "plain", "compiled"])))
    for x in range(220 if tier == "quick" else 2000):
        k = rng.randint(1, 6)
        mx = rng.choice([1, 2, 7, 10, 50, 100]) if x % 4 else rng.choice([137, 256, 1000, 4096, 10000])
        ps.append(dict(req=[[rng.randint(1, 4), rng.choice([1, mx, 2 * mx, mx + 1, max(1, mx - 1), rng.randint(1, 3 * mx)]),
                             rng.randint(1, 3)] for _ in range(k)], max=mx,
                       shuffle=rng.random() < .3, seed=rng.randint(0, 10**6), kind=rng.choice(["plain", "compiled"])))
    return [dict(name="split", spec="ShotsTrace", params=ps)]


def tb_groups(tier, seed, gens):
    rng = random.Random(seed + 7)
    ps = []
    for _ in range(110 if tier == "quick" else 600):
        k = rng.randint(1, 3)
        batch = rng.choice([1, 2, 3, 4, 5, 8, 1000])
        ns = [rng.choice([1, 2, 3, batch if batch < 9 else 4, 2 * batch if batch < 9 else 6, rng.randint(1, 12)]) for _ in range(k)]
        ps.append(dict(ns=[min(n, 15) for n in ns], batch=batch, cores=rng.choice([1, 1, 1, 2, 3]),
                       order=rng.sample(range(k), k), how=rng.choice(["circuits", "circuit", "run", "counts"]),
                       same=rng.random() < .3, split=rng.random() < .3, bits=rng.choice(["c", "reg"])))
    # several cores: in processes that have not simulated anything themselves
    return [dict(name="tb", spec="ShotsTrace", params=[dict(p, cores=1) for p in ps] , limit=120),
            dict(name="tbmc", spec="ShotsTrace", params=[p for p in ps if p["cores"] > 1] * 2, limit=120),
            dict(name="tbfork", spec="ShotsTrace", params=[dict(ns=[3], batch=2, cores=2, order=[0], how="run", same=False,
                                                                split=False, bits="c", prior=True)], limit=25)]


def post_groups(tier, seed, gens):
    rng = random.Random(seed + 11)
    ps = []
    for _ in range(700 if tier == "quick" else 6000):
        ps.append(dict(seed=rng.randint(0, 10**9), nres=rng.randint(1, 4), how=rng.choice(["mgr", "task", "mitres"]),
                       nb=rng.randint(1, 5), dense=rng.random()))
    for _ in range(40):
        ps.append(dict(seed=rng.randint(0, 10**9), how="overlap", nb=rng.randint(1, 4), nres=1, dense=0))
    return [dict(name="post", spec="ShotsTrace", params=ps)]


def leak_groups(tier, seed, gens):
    rng = random.Random(seed + 12)
    ps = [dict(seed=rng.randint(0, 10**9), nc=rng.randint(0 if k % 20 == 0 else 1, 3), leaky=rng.random() < .6, spare=rng.randint(1, 3))
          for k in range(250 if tier == "quick" else 2500)]
    return [dict(name="leak", spec="ShotsTrace", params=ps)]


BATCH = """SPECIFICATION Spec
CONSTANTS MaxSub = %d MaxShots = %d Max = %d Workers = %d
CHECK_DEADLOCK FALSE
INVARIANTS OncePlaced Once Small Whole Stable
"""
POST = """SPECIFICATION Spec
CONSTANTS Comp = {"a", "b"} Check = %s Gadget <- %s MaxShots = %d
CHECK_DEADLOCK FALSE
INVARIANTS Shotwise Exactly NoneLost Stepwise Merges
"""


def tb_models(tier):
    big = tier != "quick"
    return [dict(name="Batch%d" % m, spec="BatchMC", min_states=100, cfg=BATCH % (2, 6 if big else 5, m, 3 if big else 2) + ("PROPERTY Given\n" if not big else ""))
            for m in (1, 2, 3)]


def post_models(tier):
    k = 3 if tier == "quick" else 4
    return [dict(name="PostAll", spec="PostMC", min_states=100, cfg=POST % ('{"c", "d"}', "GadgetAll", k)),
            dict(name="PostSome", spec="PostMC", min_states=100, cfg=POST % ('{"c"}', "GadgetSome", k))]


X = lambda f: ("drivers.x_shots", f)
B = ["backends are replaced by a deterministic simulator that records every submission"]
register(Check("M06", ["M06."], split_models, split_gens, split_groups, {"split": X("split")}, B))
register(Check("M07", ["M07."], tb_models, None, tb_groups, {"tb": X("tb"), "tbmc": X("tb"), "tbfork": X("tb")},
               ["the compiler pass given to the backend stamps the number of the call on the circuit; AerBackend simulates it"],
               match=lambda k, p, c: bool(p.get("prior")) and c in k["clauses"]))
register(Check("L11", ["L11."], post_models, None, post_groups, {"post": X("post")}, B))
register(Check("L12", ["L12."], post_models, None, leak_groups, {"leak": X("leak")},
               B + ["the gadget circuit itself comes from pytket-quantinuum"]))
