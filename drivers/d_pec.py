"""E28 (quasi-probabilities)."""
from checks import Check, register
from drivers.d_circ import seeds


def models(tier):
    return [dict(name="Combine", spec="PecMC", min_states=500, workers=4, timeout=800,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxExp = %d MaxErr = 2 V = 1\nCHECK_DEADLOCK FALSE\nINVARIANTS Own AllUsed Linear\n"
                     % (2 if tier == "quick" else 3))]


def g28(tier, seed, g):
    return [dict(name="pec", spec="PecTrace", params=seeds("E28a", tier, seed, 60, 600)),
            dict(name="pecparts", spec="PecTrace", params=seeds("E28b", tier, seed, 300, 4000))]


register(Check("E28", ["E28."], models, None, g28, {k: ("drivers.x_pec", k) for k in ("pec", "pecparts")}))
