"""S14-S16 (SPAM calibration, correction and its histories)."""
import random
from checks import Check, register
from drivers.d_circ import seeds

HIST = "SPECIFICATION Spec\nCONSTANTS Steps = %d Most = %d Gen = %s\nCHECK_DEADLOCK FALSE\n"
PART = "SPECIFICATION Spec\nCONSTANTS N = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n"


def m14(tier):
    return [dict(name="Parts", spec="SpamMC", min_states=300, workers=6, timeout=850,
                 cfg=PART % (2 if tier == "quick" else 3, "Columns"))]


def m15(tier):
    return [dict(name="Parts", spec="SpamMC", min_states=300, workers=6, timeout=850,
                 cfg=PART % (2 if tier == "quick" else 3, "Columns Undone Consistent"))]


def m16(tier):
    return [dict(name="Histories", spec="SpamHistMC", min_states=300, workers=4, timeout=600,
                 cfg=HIST % (5 if tier == "quick" else 6, 2, "FALSE") + "INVARIANTS Latest Once\nPROPERTY Twice\n")]


def gens(tier, seed):
    return [dict(name="hist%d" % d, spec="SpamHistMC", workers=1, cfg=HIST % (d, 3, "TRUE") + "INVARIANT Emit\n",
                 extra=("-simulate", "num=%d" % k, "-depth", str(d + 2), "-seed", str(seed + d)))
            for d, k in (((5, 60), (9, 60)) if tier == "quick" else ((5, 300), (9, 500), (16, 300)))]


def g14(tier, seed, g):
    return [dict(name="calibrate", spec="SpamTrace", params=seeds("S14a", tier, seed, 250, 2500)),
            dict(name="runs", spec="SpamTrace", params=seeds("S14b", tier, seed, 60, 600))]


def g15(tier, seed, g):
    return [dict(name="runs", spec="SpamTrace", params=seeds("S15a", tier, seed, 320, 4000))]


def g16(tier, seed, g):
    rng = random.Random(seed + 16)
    hs = [h for k in sorted(g) for h in g[k]]
    return [dict(name="runs", spec="SpamTrace", params=[dict(seed=rng.randint(0, 10**9), hist=h) for h in hs], shards=4)]


X = {k: ("drivers.x_spam", k) for k in ("calibrate", "runs")}
register(Check("S14", ["S14."], m14, None, g14, X))
register(Check("S15", ["S15."], m15, None, g15, X))
register(Check("S16", ["S16."], m16, gens, g16, X))
