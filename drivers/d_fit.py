"""R23 (data regression), R24 (depolarising factor)."""
from checks import Check, register
from drivers.d_circ import seeds


FCFG = ("SPECIFICATION Spec\nCONSTANTS MaxX = %d MaxY = %d MaxN = 4\nCHECK_DEADLOCK FALSE\n"
        "INVARIANTS Orthogonal LineAgrees MeanAgrees Exact Three3 AnyOrder\n")


def fits(tier):
    return [dict(name="Fits", spec="FitMC", min_states=2000, workers=6, timeout=800, cfg=FCFG % ((4, 1) if tier == "quick" else (5, 2)))]


def calib(tier):
    return [dict(name="Calib", spec="CalibMC", min_states=1000, workers=4, timeout=800,
                 cfg="SPECIFICATION Spec\nCONSTANT MaxGates = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Definite Flips Alone\n"
                     % (2 if tier == "quick" else 3))]


def g23(tier, seed, g):
    return [dict(name="cdr", spec="FitTrace", params=seeds("R23", tier, seed, 150, 2000)),
            dict(name="cdrtasks", spec="FitTrace", params=seeds("R23b", tier, seed, 500, 6000))]


def g24(tier, seed, g):
    return [dict(name="dfsc", spec="FitTrace", params=seeds("R24", tier, seed, 400, 5000))]


register(Check("R23", ["R23."], fits, None, g23, {"cdr": ("drivers.x_fit", "cdr"), "cdrtasks": ("drivers.x_fit", "cdrtasks")}))
register(Check("R24", ["R24."], calib, None, g24, ("drivers.x_fit", "dfsc")))
