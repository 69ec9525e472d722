"""P29 (spectral filtering)."""
from checks import Check, register
from drivers.d_circ import seeds


def models(tier):
    return [dict(name="Filtering", spec="SpectralMC", min_states=300, workers=4, timeout=800,
                 cfg="SPECIFICATION Spec\nCONSTANTS V = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Lossless Real Twice Places\n" % v)
            for v in ([1 if tier == "quick" else 2])]


def g29(tier, seed, g):
    return [dict(name="spectral", spec="SpectralTrace", params=seeds("P29a", tier, seed, 250, 2500)),
            dict(name="stages", spec="SpectralTrace", params=seeds("P29b", tier, seed, 300, 3000))]


register(Check("P29", ["P29."], models, None, g29, {k: ("drivers.x_spectral", k) for k in ("spectral", "stages")}))
