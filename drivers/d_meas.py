"""M08 (MitEx runs) and M10 (measurement circuits)."""
import random
from checks import Check, register

CFG = "SPECIFICATION Spec\nCONSTANTS N = 2 MaxGates = %d MaxStr = %d Gen = %s\nCHECK_DEADLOCK FALSE\n"


def pauli(tier, name="Pauli"):
    return dict(name=name, spec="PauliMC", min_states=1000, workers=4, timeout=800,
                cfg="SPECIFICATION Spec\nCONSTANTS N = 2 MaxGates = %d Angles = {300, 1000, 2500}\nCHECK_DEADLOCK FALSE\n"
                    "INVARIANTS Group Tables PushHom PullInv InvPull NFPull NFInv NFSwap Identities\n" % (2 if tier == "quick" else 3))


def models(tier):
    q = tier == "quick"
    return [pauli(tier), dict(name="Meas", spec="MeasMC", min_states=1000, workers=4, timeout=800,
                              cfg=CFG % (3 if q else 4, 1 if q else 2, "FALSE") + "INVARIANTS Measures Needed\n")]


def gens(tier, seed):
    q = tier == "quick"
    return [dict(name="gen", spec="MeasMC", cfg=CFG % (1 if q else 2, 2, "TRUE") + "INVARIANT Emit\n")]


def reg_groups(tier, seed, g):
    rng = random.Random(seed + 10)
    objs = g["gen"]
    objs = rng.sample(objs, min(len(objs), 500 if tier == "quick" else 4000))
    ps = [dict(gs=o["gs"], strs=sorted(o["strs"]), n=2, how=rng.choice(["default", "reduce", "both"]), seed=rng.randint(0, 10**9))
          for o in objs]
    for _ in range(500 if tier == "quick" else 5000):
        ps.append(dict(n=rng.randint(1, 4), ns=rng.randint(1, 6), how=rng.choice(["default", "reduce", "both"]), seed=rng.randint(0, 10**9)))
    return [dict(name="register", spec="MeasTrace", params=ps)]


def run_groups(tier, seed, g):
    rng = random.Random(seed + 8)
    ps = []
    for _ in range(450 if tier == "quick" else 5000):
        ps.append(dict(seed=rng.randint(0, 10**9), kind=rng.choice(["mitex", "mitex", "mitres", "reduce"]), runs=rng.randint(1, 3),
                       ne=rng.choice([1, 1, 2, 3, 4]), dup=rng.random() < .3, share=rng.random() < .3, fail=rng.random() < .2))
    return [dict(name="run", spec="MeasTrace", params=ps)]


A = ["the device is replaced by one that records submissions and answers with arbitrary counts"]
register(Check("M08", ["M08."], lambda t: models(t)[1:], None, run_groups, ("drivers.x_meas", "run"), A))
register(Check("M10", ["M10."], models, gens, reg_groups, ("drivers.x_meas", "reg"), A))
