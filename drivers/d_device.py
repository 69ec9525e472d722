"""B32: mock devices."""
import random
from checks import Check, register

CFG = """SPECIFICATION Spec
CONSTANTS Q = {1, 2} Bits = {"a"} MaxJobs = 2 Shots = {1, %d}
CHECK_DEADLOCK FALSE
INVARIANTS Own Exact Inverted Same
"""


def models(tier):
    big = tier != "quick"
    return [dict(name="Device", spec="DeviceMC", min_states=300, workers=4,
                 cfg=(CFG % 3).replace('{"a"}', '{"a", "b"}' if big else '{"a"}') + ("" if big else "PROPERTY Served\n"))]


def groups(tier, seed, gens):
    rng = random.Random("B32%d" % seed)
    k = 1 if tier == "quick" else 12
    mk = lambda n: [dict(seed=rng.randint(0, 10**9)) for _ in range(n)]
    return [dict(name="model", spec="DeviceTrace", params=mk(60 * k)),
            dict(name="runs", spec="DeviceTrace", params=mk(160 * k), shards=4)]


register(Check("B32", ["B32."], models, None, groups, {k: ("drivers.x_device", k) for k in ("model", "runs")},
               ["circuits with deterministic outcomes; noise of rate zero, or readout that is inverted with certainty, so that no sampling is involved"]))
