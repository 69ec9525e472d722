"""T01-T05: task graphs."""
import random
from checks import Check, register

X = ("drivers.x_taskgraph", "execute")
ALPH = [(1, 1), (1, 2), (2, 1), (2, 2)]


def mc(ops, gen=False, name="mc"):
    inv = "INVARIANT Emit\n" if gen else "INVARIANTS Denotes ArityOK WellFormed Linear DecompOK\nVIEW View\n"
    return dict(name=name, spec="TaskGraphMC", workers=4, min_states=1000,
                cfg=f"CONSTANTS MaxOps = {ops} Gen = {'TRUE' if gen else 'FALSE'} Arities <- Ar\n"
                    f"SPECIFICATION Spec\n{inv}CONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n")


def models(tier):
    return [mc(4 if tier == "quick" else 5)]


def gens(tier, seed):
    return [mc(4 if tier == "quick" else 5, gen=True, name="gen")]


def from_history(h, cache=False, dec=False):
    """A TLC history (list of calls) as a scenario on the real API."""
    tasks, ops, names = {}, [["new", "G"], ["new", "H"]], 0
    cur, inner, n = "G", "H", 0
    for o in h:
        if o[0] in ("append", "prepend", "parallel"):
            if o[1][0] == "T":
                t = f"T{o[1][1]}{o[1][2]}"
                tasks[t] = [t, o[1][1], o[1][2], []]
                ops.append([o[0], cur, t, "task"])
            else:
                ops.append([o[0], cur, inner, "graph"])
        elif o[0] == "wires":
            ops.append(["wires", cur, o[1]])
        elif o[0] == "copy":
            n += 1
            inner = f"H{n}"
            ops.append(["copy", inner, cur])
        elif o[0] == "reset":
            n += 1
            cur = f"G{n}"
            ops.append(["new", cur])
        elif o[0] == "decompose":
            ops.append(["decompose", cur])
    ops.append(["run", cur, 0, cache, []])
    if dec:
        ops += [["decompose", cur], ["run", cur, 100, False, []], ["run", inner, 200, False, []]]
    return dict(tasks=list(tasks.values()), ops=ops)


class Rand:
    """Random histories; keeps just enough arity information to aim calls."""

    def __init__(self, rng, ntasks=4, maxar=3, writes=0, zero=False):
        self.r = rng
        self.tasks = []
        self.ar = {}
        for k in range(ntasks):
            ni = rng.randint(0 if zero and rng.random() < .1 else 1, maxar)
            no = rng.randint(0 if zero and rng.random() < .1 and ni else 1, maxar)
            wr = []
            for _ in range(writes):
                if rng.random() < .4:
                    wr.append([rng.choice("kmn"), 100 * (k + 1) + rng.randint(0, 9)])
            name = rng.choice(["A", "Task", "b b", "X:"]) + str(k)
            self.tasks.append([name, ni, no, wr])
            self.ar[name] = (ni, no)
        self.nonempty = writes > 0   # graphs without tasks are no components then
        self.full = set()
        self.g = {}
        self.ops = []
        self.base = 0

    def new(self, n):
        self.g[n] = [1, 1]
        self.ops.append(["new", n])

    def comps(self, notg=None):
        return [(t, "task", *self.ar[t]) for t in self.ar] + [
            (h, "graph", *v) for h, v in self.g.items() if h != notg and (not self.nonempty or h in self.full)]

    def build(self, g, cap=6):
        r = self.r
        ni, no = self.g[g]
        kind = r.choice(["append"] * 4 + ["prepend"] * 4 + ["parallel"] * 3 + ["wires"] * 2)
        if kind == "wires":
            k = r.choice([1, 1, 1, 2])
            if no + k > cap or ni + k > cap:
                return
            self.ops.append(["wires", g, k])
            self.g[g] = [ni + k, no + k]
            return
        cs = self.comps(notg=g if r.random() < .8 else None)
        fit = [c for c in cs if (kind == "append" and c[2] == no) or (kind == "prepend" and c[3] == ni) or kind == "parallel"]
        if kind == "parallel":
            fit = [c for c in fit if c[2] + ni <= cap and c[3] + no <= cap]
        if r.random() < .12:
            c = r.choice(cs)
            if kind == "parallel" and c not in fit:
                return
        elif not fit:
            return
        else:
            c = r.choice(fit)
        self.ops.append([kind, g, c[0], c[1]])
        if c in fit:
            self.full.add(g)
            if kind == "append":
                self.g[g][1] = c[3]
            elif kind == "prepend":
                self.g[g][0] = c[2]
            else:
                self.g[g] = [ni + c[2], no + c[3]]

    def run(self, g, cache=False, char=()):
        self.ops.append(["run", g, self.base, cache, [list(x) for x in char], self.r.choice(["run", "call"])])
        self.base += 20

    def out(self):
        return dict(tasks=self.tasks, ops=self.ops)


def size_ok(R, cap=400):
    """bounds the number of leaves of the graphs (nesting doubles them)"""
    n = {}
    for o in R.ops:
        if o[0] == "new":
            n[o[1]] = 0
        elif o[0] in ("append", "prepend", "parallel"):
            n[o[1]] += 1 if o[3] == "task" else max(n.get(o[2], 0), 1)
        elif o[0] == "copy":
            n[o[1]] = n[o[2]]
    return max(n.values(), default=0) <= 24


def rand_many(n, seed, make):
    out, k = [], 0
    while len(out) < n:
        k += 1
        rng = random.Random(f"{seed}/{k}")
        R = make(rng)
        if size_ok(R):
            out.append(R.out())
    return out


def mk_t01(rng):
    R = Rand(rng, ntasks=rng.randint(2, 5), maxar=rng.choice([2, 3, 4]), zero=True)
    for g in ["G", "H", "K"][: rng.randint(1, 3)]:
        R.new(g)
    for _ in range(rng.randint(3, 14)):
        R.build(rng.choice(list(R.g)))
    for g in R.g:
        R.run(g)
    return R


def t01_groups(tier, seed, gens):
    rng = random.Random(seed)
    hist = [h for h in gens["gen"] if h]
    short = [h for h in hist if len(h) <= 3]
    long = [h for h in hist if len(h) > 3]
    pick = long if tier == "thorough" and len(long) < 40000 else rng.sample(long, min(len(long), 2500 if tier == "quick" else 30000))
    return [dict(name="hist", spec="TaskGraphTrace", params=[from_history(h) for h in short + pick], shards=4),
            dict(name="rand", spec="TaskGraphTrace", params=rand_many(800 if tier == "quick" else 8000, seed, mk_t01), shards=4)]


def mk_t02(rng):
    R = Rand(rng, ntasks=rng.randint(2, 4), maxar=rng.choice([2, 3]), zero=rng.random() < .2)
    names = ["G", "H", "K", "L"][: rng.randint(2, 4)]
    for g in names:
        R.new(g)
    for _ in range(rng.randint(5, 16)):
        g = rng.choice(names)
        R.build(g)
        if rng.random() < .15:
            R.ops.append(["decompose", rng.choice(names)])
    for g in names:
        R.run(g)
    for g in rng.sample(names, rng.randint(1, len(names))):
        R.ops.append(["decompose", g])
    for g in names:
        R.run(g)
    if rng.random() < .5:
        for _ in range(3):
            R.build(rng.choice(names))
        R.ops.append(["decompose", names[0]])
        for g in names:
            R.run(g)
    return R


def t02_groups(tier, seed, gens):
    rng = random.Random(seed + 7)
    hist = [h for h in gens["gen"] if any(o[0] in ("append", "prepend", "parallel") and o[1][0] == "g2" for o in h)]
    pick = rng.sample(hist, min(len(hist), 1500 if tier == "quick" else 20000))
    # directed: nested graph filled first, then reused several times
    return [dict(name="hist", spec="TaskGraphTrace", params=[from_history(h, dec=True) for h in pick]),
            dict(name="rand", spec="TaskGraphTrace", params=rand_many(1200 if tier == "quick" else 10000, seed + 7, mk_t02))]


def mk_t03(rng):
    R = Rand(rng, ntasks=rng.randint(2, 4), maxar=2, writes=1 if rng.random() < .6 else 0)
    names = ["G", "H"]
    for g in names:
        R.new(g)
    n = 0
    decomposed = False
    for _ in range(rng.randint(6, 18)):
        x = rng.random()
        g = rng.choice(names)
        if x < .5:
            R.build(g)
        elif x < .62 and n < 3:
            n += 1
            R.g[f"C{n}"] = list(R.g[g])
            R.full |= {f"C{n}"} if g in R.full else set()
            names.append(f"C{n}")
            R.ops.append(["copy", f"C{n}", g])
        elif x < .8:
            R.run(g, char=[(rng.choice("kmn"), rng.randint(1, 9))] if rng.random() < .5 else [])
        elif x < .86:
            R.ops.append(["taskchar", rng.choice(list(R.ar)), [[rng.choice("kmn"), rng.randint(10, 19)]]])
        elif x < .92:
            R.ops.append([rng.choice(["setchar", "updchar"]), g, [[rng.choice("kmn"), rng.randint(20, 29)]]])
        elif not any(t[3] for t in R.tasks) and not any(o[0] in ("taskchar", "setchar", "updchar") or (o[0] == "run" and o[4]) for o in R.ops):
            R.ops.append(["decompose", g])
            decomposed = True
        if decomposed:
            pass
    for g in names:
        R.run(g)
    return R


def t03_groups(tier, seed, gens):
    return [dict(name="rand", spec="TaskGraphTrace", params=rand_many(1500 if tier == "quick" else 12000, seed + 3, mk_t03)),
            dict(name="gen", spec="TaskGraphTrace", params=[dict(kind=k, run=r) for k in GENERATORS for r in (False, True)], limit=300)]


GENERATORS = ["frame_randomisation", "measurement_reduction", "spam", "spam_shared", "dfsc", "dfsc_shared", "cdr",
              "spectral", "spectral_res", "zne", "zne_res", "pec", "postselect", "leakage", "mitex_mitres"]


def mk_t04(rng):
    R = Rand(rng, ntasks=rng.randint(2, 6), maxar=rng.choice([2, 3]), zero=rng.random() < .2)
    names = ["G", "H"]
    for g in names:
        R.new(g)
    for _ in range(rng.randint(2, 9)):
        R.build(rng.choice(names))
        if rng.random() < .25:
            R.run(rng.choice(names), cache=rng.random() < .6)
    if rng.random() < .2:
        R.ops.append(["decompose", "G"])
    for _ in range(rng.randint(2, 5)):
        R.run(rng.choice(names), cache=rng.random() < .6)
    return R


def t04_groups(tier, seed, gens):
    rng = random.Random(seed + 4)
    hist = [h for h in gens["gen"] if h]
    pick = rng.sample(hist, min(len(hist), 1000 if tier == "quick" else 10000))
    return [dict(name="hist", spec="TaskGraphTrace", params=[from_history(h, cache=True) for h in pick]),
            dict(name="rand", spec="TaskGraphTrace", params=rand_many(1500 if tier == "quick" else 12000, seed + 4, mk_t04))]


def mk_t05(rng):
    R = Rand(rng, ntasks=rng.randint(2, 5), maxar=2, writes=2)
    names = ["G", "H", "K"][: rng.randint(1, 3)]
    for g in names:
        R.new(g)
    pre = rng.random() < .4
    for _ in range(rng.randint(4, 12)):
        R.build(rng.choice(names))
        if pre and rng.random() < .2:
            g = rng.choice(names)
            R.ops.append([rng.choice(["setchar", "updchar"]), g, [[rng.choice("kmn"), rng.randint(20, 29)]]])
        if pre and rng.random() < .1:
            R.ops.append(["taskchar", rng.choice(list(R.ar)), [[rng.choice("kmn"), rng.randint(10, 19)]]])
    for _ in range(rng.randint(2, 6)):
        g = rng.choice(names)
        x = rng.random()
        if x < .25:
            kv = [[k, rng.randint(30, 39)] for k in rng.sample("kmn", rng.randint(0, 2))]
            R.ops.append([rng.choice(["setchar", "updchar"]), g, kv])
        R.run(g, char=[(k, rng.randint(1, 9)) for k in rng.sample("kmn", rng.randint(0, 2))], cache=rng.random() < .2)
    return R


def t05_groups(tier, seed, gens):
    return [dict(name="rand", spec="TaskGraphTrace", params=rand_many(2500 if tier == "quick" else 20000, seed + 5, mk_t05))]


A = ["task methods are pure functions; values are interned terms, so equal values mean equal provenance"]
register(Check("T01", ["T01."], models, gens, t01_groups, X, A))
register(Check("T02", ["T01.", "T02.", "T04.all", "T04.once"], models, gens, t02_groups, X, A))
register(Check("T03", ["T03.", "T05.", "T01."], models, None, t03_groups,
               {"rand": X, "gen": ("drivers.x_isolation", "execute")}, A))
register(Check("T04", ["T04.", "T01.outs", "T01.args"], models, gens, t04_groups, X, A))
register(Check("T05", ["T05."], models, None, t05_groups, X, A))
