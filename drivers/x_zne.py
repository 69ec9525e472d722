"""Zero-noise extrapolation (Z26): runs, tasks and fits."""
import random, warnings
import numpy as np
from pytket import Circuit, OpType, Qubit
from pytket.architecture import Architecture, FullyConnected
from pytket.circuit import Node
from pytket.passes import CustomPass, DecomposeBoxes, DecomposeSwapsToCXs, DefaultMappingPass, RebaseTket, RemoveRedundancies, SequencePass
from pytket.pauli import QubitPauliString
from pytket.predicates import CompilationUnit
from pytket.utils import QubitPauliOperator
from sympy import Symbol
from qermit import AnsatzCircuit, MitRes, ObservableExperiment, ObservableTracker, SymbolsDict
from drivers.circ import unitary_part
from drivers.mocks import DetBackend, answer_mitex, run_parametric
from drivers.x_fit import operator, read
from drivers.x_meas import qnames, qps, strings

PAIRS = ["CX", "CX", "CZ"]


def ansatz(rng, n, qs, syms):
    c = Circuit()
    for q in sorted(qs):
        c.add_qubit(q)
    for _ in range(rng.randint(2, 8)):
        k = rng.random()
        if k < .45 and n > 1:
            getattr(c, rng.choice(PAIRS))(*rng.sample(qs, 2))
        elif k < .85 or not syms:
            getattr(c, rng.choice(["H", "S", "V", "X", "Sdg", "Y"]))(rng.choice(qs))
        else:
            getattr(c, rng.choice(["Rz", "Ry", "Rx"]))(rng.choice(syms), rng.choice(qs))
    if n > 1:
        getattr(c, rng.choice(PAIRS))(*rng.sample(qs, 2))
    c.H(rng.choice(qs))
    return c


def size(c, two):
    cs = [x for x in c.get_commands() if x.op.type not in (OpType.Barrier, OpType.noop, OpType.Phase)]
    return len([x for x in cs if len(x.qubits) == 2]) if two else len(cs)


def pages(m):
    """A way of folding that answers with m circuits; the scaling is in their size."""
    def fold(circ, noise_scaling, **kw):
        out = []
        for _ in range(m):
            c = circ.copy()
            q = c.qubits[0]
            c.add_barrier(c.qubits)
            for _ in range(round(2 * noise_scaling)):
                c.X(q).add_barrier([q]).X(q).add_barrier([q])
            out.append(c)
        return out
    return fold


class Device(DetBackend):
    def __init__(self, *a, rebase=None, **k):
        super().__init__(*a, **k)
        self._rebase = rebase

    def rebase_pass(self):
        return self._rebase or DecomposeBoxes()


def machine(rng, n=4):
    k = rng.random()
    if k < .3:
        return Device(n)
    if k < .5:
        return Device(n, rebase=RebaseTket())
    nodes = [Node(rng.choice(["node", "x"]), j + 1) for j in range(n)]
    arch = Architecture([(nodes[j], nodes[j + 1]) for j in range(n - 1)])
    ps = [DecomposeBoxes(), DefaultMappingPass(arch)]
    if rng.random() < .6:
        ps += [DecomposeSwapsToCXs(arch)]
    if rng.random() < .3:
        ps += [RemoveRedundancies()]
    return Device(n, arch=arch, compile_pass=SequencePass(ps), rebase=rng.choice([None, None, RebaseTket()]))


def zne(p):
    from qermit.zero_noise_extrapolation.zne import Fit, Folding, gen_ZNE_MitEx
    rng = random.Random(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    random.seed(p["seed"])
    warnings.simplefilter("ignore")
    be = machine(rng)
    real = rng.random() < .2
    how = rng.choice(["circuit", "circuit", "two", "gate", "pages", "pages"])
    if how != "pages":
        be._rebase = None        # merges gates, so the scaling cannot be told from the size
    m, two = 1, how == "two"
    if how == "pages":
        m = rng.choice([1, 2, 3])
        xs = rng.sample([1, 1.5, 2, 2.5, 3, 4, 5], rng.randint(2, 5))
        fold = pages(m)
    else:
        xs = rng.sample([1, 3, 5, 7], rng.randint(2, 4))
        fold = dict(circuit=Folding.circuit, two=Folding.two_qubit_gate, gate=Folding.gate)[how]
    if rng.random() < .7 and 1 not in xs:
        xs[rng.randrange(len(xs))] = 1
    if rng.random() < .3:
        xs.sort()
    fit = rng.choice(["linear", "linear", "polynomial", "richardson", "default", "exponential"])
    if fit == "exponential" and (1 not in xs or len(xs) < 3):
        fit = "linear"
    deg = 1
    kw = dict(folding_type=fold)
    if how == "circuit" and rng.random() < .5:
        del kw["folding_type"]
    if fit == "richardson":
        deg = len(xs) - 1
    elif fit == "polynomial":
        deg = len(xs) - 1
        if rng.random() < .6:
            deg = kw["deg"] = rng.randint(0, min(len(xs) - 1, 2))
    elif fit == "linear" and rng.random() < .3:
        kw["deg"] = 2
    if fit != "default":
        kw["fit_type"] = getattr(Fit, fit)
    kw["optimisation_level"] = rng.choice([0, 1, 2])
    if rng.random() < .3:
        kw["allow_approx_fold"] = rng.choice([True, False])
    table, log, maps = {}, [], {}
    x0 = {}

    def scaling(w):
        k0 = x0[w.AnsatzCircuit.Shots]
        c = w.AnsatzCircuit.Circuit
        v = size(c, two) - (k0 if how == "pages" else 0)
        d = 4 if how == "pages" else k0
        return v * 2 // d if v * 2 % d == 0 else 0       # twice the scaling

    def value(w, s, j):
        sh = w.AnsatzCircuit.Shots
        x, s0 = scaling(w), maps[sh].get(s)
        if fit == "exponential":
            a, b = table.setdefault((sh, s0), (rng.randint(-3, 3), rng.choice([-8, -4, 4, 8, 6])))
            return (a + b * 2.0 ** (-x / 2)) / 8
        return table.setdefault((sh, s0, x, j), rng.randint(-8, 8)) / 8
    seen = {}

    def answer(j, w, s):
        k = seen.setdefault((id(w), s), sum(1 for v in log if v is not w and v.AnsatzCircuit.Shots == w.AnsatzCircuit.Shots and scaling(v) == scaling(w)))
        return value(w, s, k)
    be2 = Device(5)
    try:
        if real:
            if rng.random() < .5:
                kw["experiment_mitres"] = MitRes(be2)
            M = gen_ZNE_MitEx(be, xs, **kw)
        else:
            M = gen_ZNE_MitEx(be, xs, experiment_mitex=answer_mitex(be, answer, log), **kw)
    except Exception as x:  # noqa
        return dict(ev=[dict(op="zne", how=fit, deg=deg, m=m, xs=[], runs=[], shots=[], exps=[], outs=[], ok=False, real=False, exc=repr(x)[:300])])
    evs = []
    for run in range(rng.choice([1, 1, 1, 2])):
        for l in (log, be.log, be2.log):
            l.clear()
        for d in (table, seen, maps, x0):
            d.clear()
        k = rng.choice([0, 1, 1, 2, 3])
        pool, shots = rng.sample(range(6, 400), 200), []
        if real:
            pool = [6 * 64 * j for j in range(1, 60)]
        for sh in pool:
            if len(shots) < k and all(sh // m != t // m for t in shots):
                shots.append(sh)
        req, strs, qss, orig = [], [], [], []
        for sh in shots:
            n = rng.randint(2 if two else 1, 3)
            qs = qnames(rng, n)
            syms = [Symbol("a"), Symbol("b")] if rng.random() < .3 else []
            c = ansatz(rng, n, qs, syms)
            sd = SymbolsDict.symbols_from_dict({s: rng.choice([.5, 1, 1.5]) for s in syms})
            ls = strings(rng, n, rng.choice([1, 1, 2, 3]))
            o = operator(ls, qs, rng)
            cu = CompilationUnit(c.copy())
            be.default_compilation_pass(optimisation_level=kw["optimisation_level"]).apply(cu)
            base = cu.circuit.copy()
            be.rebase_pass().apply(base)
            x0[sh // m] = size(base, two)
            if not x0[sh // m]:
                return dict(ev=[])       # nothing left to scale
            maps[sh // m] = {QubitPauliString({cu.final_map[q]: v for q, v in s.map.items()}): s for s in o._dict}
            req.append(ObservableExperiment(AnsatzCircuit(c, sh, sd), ObservableTracker(o)))
            strs.append(list(o._dict))
            qss.append(qs)
            orig.append(([dict(g=x["g"], q=x["q"], a=x["a"]) for x in unitary_part(run_parametric(req[-1]), qs)], {s: l for s, l in zip(o._dict, ls)}))
        e = dict(op="zne", how=fit, deg=deg, m=m, xs=[round(2 * x) for x in xs], runs=[], shots=shots, exps=[], outs=[], ok=True, real=real, exc="")
        evs.append(e)
        try:
            res = M.run(req)
        except Exception as x:  # noqa
            e.update(ok=False, exc=repr(x)[:300])
            return dict(ev=evs)
        e["outs"] = [read(r, ss) for r, ss in zip(res, strs)] + [[]] * (len(res) - len(strs))
        if real:
            used = be2.log if "experiment_mitres" in kw else be.log
            other = be.log if used is be2.log else be2.log
            e["runs"] = [[0, 0, len(used), len(other)]]
            for (gs, ls), ss, qs in zip(orig, strs, qss):
                e["exps"].append([dict(n=len(qs), gs=gs, l=ls[s], c=round(8 * float(req[len(e["exps"])].ObservableTracker._qubit_pauli_operator._dict[s]))) for s in ss])
            continue
        of = {sh // m: j + 1 for j, sh in enumerate(shots)}
        for w in log:
            sh = w.AnsatzCircuit.Shots
            j = of.get(sh, 0)
            e["runs"].append([j, scaling(w) if j else 0, sh])
            if not j:
                continue
            c = run_parametric(w)
            nodes = c.qubits
            gs, ls = orig[j - 1]
            for s in w.ObservableTracker.qubit_pauli_operator._dict:
                s0 = maps[sh].get(s)
                evs.append(dict(op="zrun", n=len(qss[j - 1]), gs=gs, l=ls[s0] if s0 is not None else [], known=s0 is not None,
                                n2=len(nodes), gs2=[dict(g=x["g"], q=x["q"], a=x["a"]) for x in unitary_part(c, nodes)], l2=[int(s[q]) for q in nodes]))
        for sh, ss in zip(shots, strs):
            ex = []
            for s in ss:
                if fit == "exponential":
                    a, b = table.get((sh // m, s), (0, 0))
                    ex.append(dict(a=a, b=b, pts=[]))
                else:
                    ex.append(dict(a=0, b=0, pts=[[round(2 * x), sum(table.get((sh // m, s, round(2 * x), j), 99) for j in range(m))] for x in xs]))
            e["exps"].append(ex)
    return dict(ev=evs)


def alike(w, r):
    return (w.AnsatzCircuit.Circuit == r.AnsatzCircuit.Circuit and w.AnsatzCircuit.Shots == r.AnsatzCircuit.Shots
            and w.AnsatzCircuit.SymbolsDict._symbolic_map == r.AnsatzCircuit.SymbolsDict._symbolic_map
            and w.ObservableTracker._qubit_pauli_operator._dict == r.ObservableTracker._qubit_pauli_operator._dict)


def zfit(p):
    """The fits and the tasks of an extrapolation on their own."""
    from qermit.zero_noise_extrapolation.zne import Fit, extrapolation_task_gen
    rng = random.Random(p["seed"])
    warnings.simplefilter("ignore")
    how = rng.choice(["linear", "polynomial", "polynomial", "richardson", "exponential", "poly_exponential", "cube_root"])
    k = rng.choice([1, 1, 2, 3])
    allS = [qps(l, [Qubit(0), Qubit(1)]) for l in strings(rng, 2, 3)]
    strs = [rng.sample(allS, rng.randint(1, len(allS))) for _ in range(k)]
    deg, refuse = 1, False
    if how == "cube_root":
        xs, shift = rng.choice([([1, 8, 27], 0), ([7, 26, 63], 1), ([1, 8, 27, 64], 0)])
        xs = rng.sample(xs, len(xs))
    elif how.endswith("exponential"):
        xs = rng.sample([1] + rng.sample([2, 3, 4, 5], rng.choice([2, 3])), None or 3)
        if 1 not in xs:
            xs[rng.randrange(len(xs))] = 1
        if how == "poly_exponential" and rng.random() < .3:
            deg = rng.choice([-1, len(xs) - 1, len(xs)])
            refuse = True
    else:
        xs = rng.sample([1, 2, 3, 4, 5, 7], rng.randint(2, 5 if how != "polynomial" else 4))
        deg = 1 if how == "linear" else len(xs) - 1 if how == "richardson" else rng.choice([0, 1, 2, len(xs) - 1, len(xs) - 1, len(xs), len(xs) + 1, -1])
        if how == "polynomial":
            refuse = deg >= len(xs) or deg < 0
    e = dict(op="zfit", how=how, deg=deg, xs=[2 * x for x in xs], exps=[], outs=[], ok=True, exc="", refuse=refuse)
    val = [{} for _ in xs]
    for j in range(k):
        ex = []
        for s in strs[j]:
            if how == "cube_root":
                a, b = rng.randint(-4, 4), rng.choice([1, 2, 3, -1, -2])
                ys = [a + b * round((x + shift) ** (1 / 3)) for x in xs]
                ex.append(dict(a=a, b=b * shift, pts=[]))
            elif how.endswith("exponential"):
                a, b = rng.randint(-3, 3), rng.choice([-8, -4, 4, 8, 6])
                ys = [a + b / 2 ** x for x in xs]
                ex.append(dict(a=a, b=b, pts=[]))
            else:
                ys = [rng.randint(-8, 8) for x in xs]
                ex.append(dict(a=0, b=0, pts=[[2 * x, y] for x, y in zip(xs, ys)]))
            for v, y in zip(val, ys):
                v[j, s] = y / 8
        e["exps"].append(ex)
    args = [[QubitPauliOperator({s: v[j, s] for s in (rng.sample(strs[j], len(strs[j])))}) for j in range(k)] for v in val]
    arg = deg if how in ("polynomial", "poly_exponential") else rng.choice([deg, 2])
    try:
        if rng.random() < .3:
            f = getattr(Fit, how)
            e["outs"] = [read(QubitPauliOperator({s: f(list(xs), [v[j, s] for v in val], False, arg) for s in strs[j]}), strs[j]) for j in range(k)]
        else:
            res, = extrapolation_task_gen(list(xs), getattr(Fit, how), False, arg)(tuple(args))
            e["outs"] = [read(r, ss) for r, ss in zip(res, strs)] + [[]] * (len(res) - len(strs))
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    return dict(ev=[e])


def ztask(p):
    """Merging, duplicating, compiling and renaming."""
    from qermit.zero_noise_extrapolation.zne import (digital_folding_task_gen, gen_duplication_task, gen_initial_compilation_task,
                                                     gen_qubit_relabel_task, merge_experiments_task_gen)
    rng = random.Random(p["seed"])
    evs = []
    # merging
    k = rng.choice([0, 1, 2, 3, 4])
    of = [j for j in range(k) for _ in range(rng.choice([1, 1, 2, 4]))]
    if rng.random() < .5:
        rng.shuffle(of)
    allS = [qps(l, [Qubit(0), Qubit(1)]) for l in strings(rng, 2, 3)]
    strs = [rng.sample(allS, rng.randint(1, len(allS))) for _ in range(k)]
    vals = [{s: rng.randint(-8, 8) for s in strs[j]} for j in of]
    e = dict(op="zmerge", of=[j + 1 for j in of], vals=[[v[s] for s in strs[j]] for j, v in zip(of, vals)], outs=[], ok=True, exc="", k=k)
    try:
        res, = merge_experiments_task_gen()(([QubitPauliOperator({s: v[s] / 8 for s in rng.sample(list(v), len(v))}) for v in vals], of))
        e["outs"] = [read(r, ss) for r, ss in zip(res, strs)] + [[]] * (len(res) - len(strs))
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    evs.append(e)
    # experiments
    be = machine(rng)
    req, orig, strs = [], [], []
    for _ in range(rng.choice([1, 2, 3])):
        n = rng.randint(1, 3)
        qs = qnames(rng, n)
        c = ansatz(rng, n, qs, [])
        o = operator(strings(rng, n, 3), qs, rng)
        req.append(ObservableExperiment(AnsatzCircuit(c, rng.randint(1, 60), SymbolsDict()), ObservableTracker(o)))
        orig.append(qs)
        strs.append(o)
    d = rng.randint(1, 4)
    e = dict(op="zcopy", ok=True, exc="", d=d, same=[], apart=True, back=True, shots=[], asked=[], of=[])
    try:
        outs = gen_duplication_task(d)((req,))
        e["same"] = [[alike(w, r)
                      for w, r in zip(o, req)] + [False] * abs(len(o) - len(req)) for o in outs]
        outs[0][0].AnsatzCircuit.Circuit.X(outs[0][0].AnsatzCircuit.Circuit.qubits[0])
        outs[0][0].ObservableTracker._qubit_pauli_operator._dict.clear()
        e["apart"] = all(alike(w, r)
                         for o in outs[1:] for w, r in zip(o, req)) and len(req[0].ObservableTracker._qubit_pauli_operator._dict) > 0
        wires, maps = gen_initial_compilation_task(be, rng.choice([0, 1]))((req,))
        ans = [QubitPauliOperator({s: j + 10 * w for j, s in enumerate(x.ObservableTracker._qubit_pauli_operator._dict)}) for w, x in enumerate(wires)]
        back, = gen_qubit_relabel_task()((ans, maps))
        e["back"] = [list(b._dict.items()) for b in back] == [[(s, j + 10 * w) for j, s in enumerate(o._dict)] for w, o in enumerate(strs)]
        m = rng.choice([1, 2, 3, 7])
        folded, of = digital_folding_task_gen(be, 3, pages(m), True)((req,))
        e["shots"] = [w.AnsatzCircuit.Shots for w in folded]
        e["of"] = [j + 1 for j in of]
        e["asked"] = [[w.AnsatzCircuit.Shots, m] for w in req]
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    evs.append(e)
    return dict(ev=evs)
