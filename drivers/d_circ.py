"""F13 (frame randomisation), Z25 (folding)."""
import random
from checks import Check, register


def seeds(pid, tier, seed, quick, thorough, **kw):
    rng = random.Random("%s%d" % (pid, seed))
    return [dict(seed=rng.randint(0, 10**9), **kw) for _ in range(quick if tier == "quick" else thorough)]


CFG = ('SPECIFICATION Spec\nCONSTANTS MaxGates = %d MaxSteps = %d Mode = "%s"\nCHECK_DEADLOCK FALSE\n'
       "INVARIANTS Same Grown KeptMany Told\n")


def model(mode, quick, thorough):
    def f(tier):
        g, k = quick if tier == "quick" else thorough
        return [dict(name=mode, spec="CircMC", min_states=100, workers=4, timeout=800, cfg=CFG % (g, k, mode))]
    return f


def gen25(tier, seed):
    return [dict(name="gen", spec="CircMC",
                 cfg='SPECIFICATION Spec\nCONSTANTS MaxGates = %d MaxSteps = 0 Mode = "fold"\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n'
                     % (2 if tier == "quick" else 3))]


def g13(tier, seed, g):
    return [dict(name="frame", spec="CircTrace", params=seeds("F13a", tier, seed, 500, 5000)),
            dict(name="merge", spec="CircTrace", params=seeds("F13b", tier, seed, 400, 4000))]


def g25(tier, seed, g):
    rng = random.Random("Z25gen%d" % seed)
    ps = []
    objs = g["gen"]
    for o in rng.sample(objs, min(len(objs), 110 if tier == "quick" else 1200)):
        den = rng.choice([1, len(o["gs"]), 2, 3])
        for m in ("circuit", "two_qubit_gate", "gate", "odd_gate"):
            d = 1 if m == "odd_gate" else den
            ps.append(dict(seed=rng.randint(0, 10**9), gs=o["gs"], method=m, den=d, num=rng.randint(d, 5 * d)))
    return [dict(name="fold", spec="CircTrace", params=ps + seeds("Z25", tier, seed, 700, 9000))]


register(Check("F13", ["F13."], model("frame", (2, 1), (3, 2)), None, g13, {"frame": ("drivers.x_circ", "frame"), "merge": ("drivers.x_circ", "merge")}))
register(Check("Z25", ["Z25."], model("fold", (2, 2), (3, 2)), gen25, g25, ("drivers.x_circ", "fold")))


def g22(tier, seed, g):
    return [dict(name="train", spec="CircTrace", params=seeds("R22", tier, seed, 500, 6000))]


def g27(tier, seed, g):
    return [dict(name="framed", spec="CircTrace", params=seeds("E27", tier, seed, 180, 1500)
                 + seeds("E27b", tier, seed, 60, 500, many=2) + seeds("E27c", tier, seed, 20, 200, many=3)
                 + seeds("E27d", tier, seed, 1, 12, many=11))]


register(Check("R22", ["R22."], model("train", (4, 3), (6, 4)), None, g22, ("drivers.x_circ", "train")))
register(Check("E27", ["E27."], model("pec", (3, 0), (4, 0)), None, g27, ("drivers.x_circ", "framed")))
