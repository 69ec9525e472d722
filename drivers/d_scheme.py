"""G30 (composed schemes answer) and G31 (requests stay as they are)."""
import random
from checks import Check, register

CFG = "SPECIFICATION Spec\nCONSTANTS Depth = %d Most = %d Copies = 2 Gen = %s\nCHECK_DEADLOCK FALSE\n"


def models(tier):
    return [dict(name="Compose", spec="SchemeMC", min_states=300, workers=6, timeout=850,
                 cfg=CFG % (2 if tier == "quick" else 3, 2, "FALSE") + "INVARIANTS Ordered Levels Together Work\n")]


def gens(tier, seed):
    return [dict(name="trees", spec="SchemeMC", workers=1, cfg=CFG % (2, 3, "TRUE") + "INVARIANT Emit\n")]


def pick(pid, kinds):
    def groups(tier, seed, g):
        rng = random.Random("%s%d" % (pid, seed))
        trees = [o for k in sorted(g) for o in g[k]]
        out = []
        for kind, quick, thorough in kinds:
            k = quick if tier == "quick" else thorough
            ps = [dict(rng.choice(trees), seed=rng.randint(0, 10**9)) for _ in range(k)]
            out.append(dict(name=kind, spec="SchemeTrace", params=ps, shards=4))
        return out
    return groups


X = {k: ("drivers.x_scheme", k) for k in ("res", "exp")}
register(Check("G30", ["G30."], models, gens, pick("G30", [("res", 160, 1600), ("exp", 240, 2400)]), X))
register(Check("G31", ["G31."], models, gens, pick("G31", [("res", 120, 1200), ("exp", 220, 2200)]), X))
