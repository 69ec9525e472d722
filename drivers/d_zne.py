"""Z26 (zero-noise extrapolation)."""
from checks import Check, register
from drivers.d_circ import seeds
from drivers.d_fit import fits


def g26(tier, seed, g):
    return [dict(name="zne", spec="ZneTrace", params=seeds("Z26a", tier, seed, 240, 3000)),
            dict(name="zfit", spec="ZneTrace", params=seeds("Z26b", tier, seed, 400, 5000)),
            dict(name="ztask", spec="ZneTrace", params=seeds("Z26c", tier, seed, 300, 3000))]


register(Check("Z26", ["Z26."], fits, None, g26, {k: ("drivers.x_zne", k) for k in ("zne", "zfit", "ztask")}))
