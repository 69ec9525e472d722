"""M09: ObservableTracker histories."""
import random
from checks import Check, register

CFG = ('SPECIFICATION Spec\nCONSTANTS Names = {"t1", "t2"%s} ONames = {%s} Strings = {%s} MaxOps = %d MaxCs = %d Gen = %s\n'
       "CHECK_DEADLOCK FALSE\n")


def models(tier):
    n = 5 if tier == "quick" else 6
    return [dict(name="Tracker", spec="TrackerMC", min_states=1000, timeout=800, workers=6,
                 cfg=CFG % ("", '"o1"', '"Z0", "X0Z1"', n, 2, "FALSE")
                 + "INVARIANTS AllOK MeasuredOnce\nPROPERTIES Frame OpFrame\nVIEW View\n")]


def gens(tier, seed):
    out = []
    for d, k in ((6, 400), (12, 500), (24, 250)) if tier == "quick" else ((6, 2000), (12, 4000), (24, 3000), (60, 500)):
        out.append(dict(name=f"sim{d}", spec="TrackerMC", workers=1,
                        cfg=CFG % (', "t3"', '"o1", "o2"', '"I", "Z0", "X0Z1", "Y1"', d, 4, "TRUE") + "INVARIANT Emit\n",
                        extra=("-simulate", f"num={k}", "-depth", str(d + 2), "-seed", str(seed + d))))
    return out


def groups(tier, seed, gens_):
    rng = random.Random(seed + 9)
    ps = []
    for g in sorted(gens_):
        hs = gens_[g]
        if tier == "quick":
            hs = rng.sample(hs, min(len(hs), 1500))
        for h in hs:
            ps.append(dict(ops=h, seed=rng.randint(0, 10**9)))
    return [dict(name="tracker", spec="TrackerTrace", params=ps, shards=4)]


register(Check("M09", ["M09."], models, gens, groups, ("drivers.x_tracker", "execute"),
               ["coefficients are small integers and results hold 16 shots, so expectations are exact"]))
