"""N17 (QermitPauli), N18 (error distributions), N19 (errors in circuits)."""
import random
from checks import Check, register
from drivers.d_meas import pauli

CFG = ('SPECIFICATION Spec\nCONSTANTS D = %d MaxGates = %d Mode = "%s"\nCHECK_DEADLOCK FALSE\n'
       "INVARIANTS Conserve Commutes TransferHom ScaleHom MixSame Sides Weights Logical\n")


def dist_m(tier):
    return [dict(name="Dist", spec="NoiseMC", min_states=300, workers=4, timeout=800, cfg=CFG % (4 if tier == "quick" else 6, 0, "dist"))]


def circ_m(tier):
    return [dict(name="Circ", spec="NoiseMC", min_states=500, workers=4, timeout=800, cfg=CFG % (4, 3 if tier == "quick" else 4, "circ"))]


def gens17(tier, seed):
    q = tier == "quick"
    return [dict(name="gen", spec="PauliHistMC",
                 cfg="SPECIFICATION Spec\nCONSTANTS N = 2 MaxOps = %d\nCHECK_DEADLOCK FALSE\nINVARIANT Emit Laws\n" % (1 if q else 2)),
            dict(name="sim", spec="PauliHistMC", workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS N = 3 MaxOps = 12\nCHECK_DEADLOCK FALSE\nINVARIANT Emit Laws\n",
                 extra=("-simulate", "num=%d" % (150 if q else 1500), "-depth", "13", "-seed", str(seed + 17)))]


def g17(tier, seed, g):
    rng = random.Random(seed + 17)
    ps = []
    for name in sorted(g):
        objs = g[name]
        if name == "sim":
            objs = [o for o in objs if len(o["ops"]) >= 8]
        for o in rng.sample(objs, min(len(objs), 800 if tier == "quick" else 6000)):
            ps.append(dict(o, seed=rng.randint(0, 10**9)))
    for _ in range(700 if tier == "quick" else 8000):
        ps.append(dict(seed=rng.randint(0, 10**9), n=rng.randint(1, 5), nops=rng.randint(2, 12)))
    return [dict(name="pauli", spec="NoiseTrace", params=ps)]


def g18(tier, seed, g):
    rng = random.Random(seed + 18)
    q = tier == "quick"
    return [dict(name="dist", spec="NoiseTrace", params=[dict(seed=rng.randint(0, 10**9), nops=rng.randint(3, 10)) for _ in range(400 if q else 5000)]),
            dict(name="logical", spec="NoiseTrace", params=[dict(seed=rng.randint(0, 10**9)) for _ in range(400 if q else 5000)])]


def g19(tier, seed, g):
    rng = random.Random(seed + 19)
    q = tier == "quick"
    return [dict(name="prop", spec="NoiseTrace", params=[dict(seed=rng.randint(0, 10**9)) for _ in range(600 if q else 6000)]),
            dict(name="transpile", spec="NoiseTrace", params=[dict(seed=rng.randint(0, 10**9)) for _ in range(400 if q else 4000)])]


register(Check("N17", ["N17."], lambda t: [pauli(t)], gens17, g17, ("drivers.x_noise", "pauli")))
register(Check("N18", ["N18."], dist_m, None, g18, {"dist": ("drivers.x_noise", "dist"), "logical": ("drivers.x_noise", "logical")},
               ["rates are whole parts of a small number, compared to within a millionth",
                "sampled frequencies are compared within seven standard deviations"]))
register(Check("N19", ["N19."], circ_m, None, g19, {"prop": ("drivers.x_noise", "prop"), "transpile": ("drivers.x_noise", "transpile")},
               ["sampled frequencies are compared within seven standard deviations"]))
