"""Registry of checks: property id -> Check."""
import importlib, pkgutil
import drivers

CHECKS = {}


class Check:
    """One property. Subclasses/instances give the design models, the TLC
    generators, the scenario groups and which clauses decide the property."""
    assumptions = []

    def __init__(self, pid, clauses=None, models=None, generators=None, groups=None,
                 exec=None, assumptions=(), match=None):
        self.pid, self._cl, self._m, self._g, self._gr, self._ex = pid, clauses, models, generators, groups, exec
        self.assumptions = list(assumptions)
        self._match = match

    def owns(self, clause):
        if clause == "Crash" or clause.startswith("Unexplainable"):
            return True
        return self._cl is None or any(clause.startswith(c) for c in self._cl)

    def models(self, tier):
        return self._m(tier) if self._m else []

    def generators(self, tier, seed):
        return self._g(tier, seed) if self._g else []

    def groups(self, tier, seed, gens):
        return self._gr(tier, seed, gens)

    def executor(self, group):
        return self._ex[group] if isinstance(self._ex, dict) else self._ex

    def match_known(self, kf, params, clause):
        for k in kf:
            if self._match and self._match(k, params, clause):
                return k
        return None


def register(c):
    CHECKS[c.pid] = c


import sys
sys.modules.setdefault("checks", sys.modules[__name__])
for m in pkgutil.iter_modules(drivers.__path__):
    if m.name.startswith("d_"):
        importlib.import_module("drivers." + m.name)
