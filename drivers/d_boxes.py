"""C20 (Clifford subcircuit boxes) and C21 (coherent Pauli checks)."""
import random
from checks import Check, register

BC = "SPECIFICATION Spec\nCONSTANTS N = %d MustColour = %d\nCHECK_DEADLOCK FALSE\n"


def box_m(tier):
    return [dict(name="Box", spec="BoxMC", min_states=1000, workers=4, timeout=800,
                 cfg=BC % ((4, 0) if tier == "quick" else (5, 0)) + "INVARIANTS Covered AllConvex NoCycle" + (" Orderable\n" if tier == "quick" else "\n"))]


def chk_m(tier):
    return [dict(name="Check", spec="CheckMC", min_states=500, workers=4, timeout=800,
                 cfg="SPECIFICATION Spec\nCONSTANTS N = 2 MaxGates = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Alone Flag\n" % (3 if tier == "quick" else 4))]


def gens(tier, seed):
    q = tier == "quick"
    return [dict(name="gen", spec="BoxMC", cfg=BC % ((4, 2) if q else (5, 3)) + "INVARIANT Emit\n")]


def g20(tier, seed, g):
    rng = random.Random(seed + 20)
    q = tier == "quick"
    objs = g["gen"]
    if not q:
        objs = rng.sample(objs, min(len(objs), 12000))
    ps = [dict(n=o["n"], es=sorted(o["es"]), col=sorted(o["col"]), seed=rng.randint(0, 10**9)) for o in objs]
    for _ in range(400 if q else 5000):
        ps.append(dict(seed=rng.randint(0, 10**9)))
    return [dict(name="dag", spec="BoxTrace", params=ps),
            dict(name="box", spec="BoxTrace", params=[dict(seed=rng.randint(0, 10**9)) for _ in range(800 if q else 8000)])]


def g21(tier, seed, g):
    rng = random.Random(seed + 21)
    q = tier == "quick"
    return [dict(name="checks", spec="BoxTrace", params=[dict(seed=rng.randint(0, 10**9), pure=j % 2 == 0) for j in range(500 if q else 5000)])]


register(Check("C20", ["C20."], box_m, gens, g20, {"dag": ("drivers.x_boxes", "dag"), "box": ("drivers.x_boxes", "box")}))
register(Check("C21", ["C21."], chk_m, None, g21, {"checks": ("drivers.x_boxes", "checks")},
               ["user circuits have no registers called ancilla or ancilla_measure, as the code asks in a comment"]))
