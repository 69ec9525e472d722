"""Learning based error cancellation (E28): whole runs and the tasks that combine values."""
import random, warnings
import numpy as np
from pytket import Circuit, Qubit
from pytket.pauli import QubitPauliString
from pytket.predicates import CompilationUnit
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
from drivers.mocks import DetBackend, batch_mitex
from drivers.x_circ import state_backend
from drivers.x_fit import read
from drivers.x_meas import qnames, qps, strings
from drivers.x_zne import machine

W = 10 ** 5


def frames(rng, n, qs):
    c = Circuit()
    for q in sorted(qs):
        c.add_qubit(q)
    for _ in range(rng.choice([1, 1, 1, 2])):
        for q in qs:
            if rng.random() < .7:
                getattr(c, rng.choice(["H", "S", "V"]))(q)
            if rng.random() < .5:
                getattr(c, rng.choice(["Rx", "Rz", "Ry"]))(rng.randint(1, 999) / 500, q)
        c.CX(*rng.sample(qs, 2))
    for q in qs:
        c.H(q)
        if rng.random() < .5:
            c.Rx(rng.randint(1, 999) / 500, q)
    return c


def pec(p):
    from qermit.probabilistic_error_cancellation.pec_learning_based import gen_PEC_learning_based_MitEx
    rng = random.Random(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    random.seed(p["seed"])
    warnings.simplefilter("ignore")
    be = machine(rng, 3)
    cliffs = rng.choice([1, 2, 2, 3])
    maps, seen, order = {}, {}, {}
    note = dict(train={}, own={}, ideal={})
    rows, ideal, alpha = {}, {}, {}
    mix = rng.random() < .6

    def known(w):
        sh = w.AnsatzCircuit.Shots
        return sh, [maps[sh].get(s) for s in w.ObservableTracker.qubit_pauli_operator._dict], list(w.ObservableTracker.qubit_pauli_operator._dict)

    def row(x, s, c, e):
        return rows.setdefault((x, s, c, e), rng.randint(-4, 4))

    def weight(x, s, c):
        if (x, s, c) not in alpha:
            alpha[x, s, c] = rng.randint(-2, 2)
            ideal[x, s, c] = rng.randint(-8, 8)
        return alpha[x, s, c], ideal[x, s, c]

    def device(wires):
        out = []
        size = {}
        for w in wires:
            x, ss, _ = known(w)
            kind = own(w)
            size[x, kind, tuple(map(str, ss))] = size.get((x, kind, tuple(map(str, ss))), 0) + 1
        at = {}
        for w in wires:
            x, ss, nodes = known(w)
            kind = own(w)
            key = (x, kind, tuple(map(str, ss)))
            k = at[key] = at.get(key, -1) + 1
            if kind:
                note["own"][x] = note["own"].get(x, 0) + 1
                d = {s: sum(weight(x, s0, c)[0] * row(x, s0, c, k) for c in range(cliffs)) / 8 for s, s0 in zip(nodes, ss)}
            else:
                note["train"][x, ss[0]] = note["train"].get((x, ss[0]), 0) + 1
                e = size[key] // cliffs
                d = {s: row(x, s0, k // e, k % e) / 8 for s, s0 in zip(nodes, ss)}
            keys = list(d)
            if mix:
                rng.shuffle(keys)
            out.append({s: d[s] for s in keys})
        return out

    def own(w):
        return [v for v in w.ObservableTracker.qubit_pauli_operator._dict.values()] != [1]

    def sim(wires):
        out, at = [], {}
        for w in wires:
            x, ss, nodes = known(w)
            c = at[x, ss[0]] = at.get((x, ss[0]), -1) + 1
            note["ideal"][x, ss[0]] = c + 1
            out.append({s: weight(x, s0, c)[1] / 8 for s, s0 in zip(nodes, ss)})
        return out
    evs = []
    try:
        M = gen_PEC_learning_based_MitEx(be, state_backend(), device_mitex=batch_mitex(be, device), simulator_mitex=batch_mitex(be, sim), num_cliff=cliffs)
    except Exception as x:  # noqa
        return dict(ev=[dict(op="pec", exps=[], outs=[], sizes=[], cliffs=cliffs, ok=False, exc=repr(x)[:300])])
    for run in range(rng.choice([1, 1, 2])):
        for d in (maps, rows, ideal, alpha, note["train"], note["own"], note["ideal"]):
            d.clear()
        k = rng.choice([0, 1, 2, 2, 3])
        shots = rng.sample(range(1, 99), k)
        req, strs = [], []
        for sh in shots:
            n = 2
            qs = qnames(rng, n) if rng.random() < .4 else [Qubit(j) for j in range(n)]
            c = frames(rng, n, qs)
            o = QubitPauliOperator({qps(l, qs): rng.choice([2.0, -.5, 3.0]) for l in strings(rng, n, rng.choice([1, 2, 2, 3]))})
            cu = CompilationUnit(c.copy())
            be.default_compilation_pass(optimisation_level=0).apply(cu)
            maps[sh] = {QubitPauliString({cu.final_map[q]: v for q, v in s.map.items()}): s for s in o._dict}
            req.append(ObservableExperiment(AnsatzCircuit(c, sh, SymbolsDict()), ObservableTracker(o)))
            strs.append(list(o._dict))
        e = dict(op="pec", exps=[], outs=[], sizes=[], cliffs=cliffs, ok=True, exc="")
        try:
            res = M.run(req)
        except Exception as x:  # noqa
            if "non-zero expectation" in repr(x) or "no computing gates" in repr(x):
                return dict(ev=evs)
            e.update(ok=False, exc=repr(x)[:300])
            return dict(ev=evs + [e])
        evs.append(e)
        e["outs"] = [read(r, ss) for r, ss in zip(res, strs)] + [[]] * (len(res) - len(strs))
        for sh, ss in zip(shots, strs):
            e["exps"].append([[list(weight(sh, s, c)) for c in range(cliffs)] for s in ss])
            e["sizes"].append(dict(own=note["own"].get(sh, 0), train=[note["train"].get((sh, s), 0) for s in ss], ideal=[note["ideal"].get((sh, s), 0) for s in ss]))
    return dict(ev=evs)


def pecparts(p):
    """Collating, learning and applying on their own."""
    from qermit.probabilistic_error_cancellation.pec_learning_based import (collate_results_task_gen, gen_run_with_quasi_prob,
                                                                            learn_quasi_probs_task_gen)
    rng = random.Random(p["seed"])
    evs = []
    # collating: results carry their own number
    k = rng.choice([1, 2, 3])
    ideals, noisies = [], []
    nstr = [rng.randint(1, 3) for _ in range(k)]
    cl = rng.randint(1, 3)
    for x in range(k):
        for s in range(nstr[x]):
            for c in range(cl):
                ideals.append([x, s, c])
    for j, _ in enumerate(ideals):
        for e in range(rng.randint(1, 4)):
            noisies.append([j, e])
    if rng.random() < .4:
        # the lists need not be sorted
        order = sorted(range(len(noisies)), key=lambda j: (rng.random() if p["seed"] % 2 else 0, j))
        pos = {}
        for j in order:
            pos.setdefault(noisies[j][0], []).append(j)
        order = [pos[noisies[j][0]].pop(0) for j in order] if False else sorted(order, key=lambda j: noisies[j][1])
        noisies = [noisies[j] for j in order]
    q = qps([3], [Qubit(0)])
    num = lambda v: QubitPauliOperator({q: float(v)})  # noqa
    e = dict(op="collate", ideals=ideals, noisies=noisies, got=[], ok=True, exc="", k=k, nstr=nstr)
    try:
        res, = collate_results_task_gen()(([num(j + 1) for j in range(len(noisies))], [dict(experiment=j, error=r) for j, r in noisies],
                                           [num(j + 1) for j in range(len(ideals))],
                                           [dict(experiment=x, qps=s, training_circuit=c) for x, s, c in ideals]))
        e["got"] = [[[[[round(float(a._dict[q])), round(float(b._dict[q]))] for a, b in c] for c in s] for s in x] for x in res]
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    evs.append(e)
    # learning: weights that give the noiseless values
    errs = rng.choice([3, 4, 6, 16])
    cl = rng.randint(1, 3)
    data, wire = [], []
    for x in range(rng.choice([1, 2])):
        xs, xw = [], []
        for s in range(rng.choice([1, 2, 3])):
            rows = [[rng.randint(-4, 4) for _ in range(errs)] for _ in range(cl)]
            if np.linalg.matrix_rank(np.array(rows)) < cl or np.linalg.cond(np.array(rows)) > 50:
                rows = [[2 if j == c else 0 for j in range(errs)] for c in range(cl)]
            target = [rng.randint(-4, 4) for _ in range(cl)]
            name = qps([s + 1], [Qubit(0)])
            xs.append(dict(rows=rows, target=target, w=[]))
            xw.append([[(QubitPauliOperator({name: v / 4}), QubitPauliOperator({name: t / 4})) for v in r] for r, t in zip(rows, target)])
        data.append(xs)
        wire.append(xw)
    e = dict(op="learned", data=data, ok=True, exc="", W=W)
    try:
        res, = learn_quasi_probs_task_gen(cl)((wire,))
        for x, xs in enumerate(data):
            for s, d in enumerate(xs):
                d["w"] = [round(float(v) * W) for v in res[x][s]]
        e["ok"] = [len(r) for r in res] == [len(x) for x in data]
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    evs.append(e)
    # applying
    exps, probs, vals, strs, form = [], [], [], [], []
    for x in range(rng.choice([1, 2, 3])):
        m = rng.choice([1, 2, 5, 16])
        ls = strings(rng, 2, 3)
        names = [qps(l, [Qubit(0), Qubit(1)]) for l in ls]
        pr = [[rng.randint(-4, 4) for _ in range(m)] for _ in names]
        vs = [[rng.randint(-8, 8) for _ in range(m)] for _ in names]
        strs.append(names)
        exps.append([dict(pr=a, v=b) for a, b in zip(pr, vs)])
        probs.append([[v / 4 for v in r] for r in pr])
        vals += [QubitPauliOperator({s: vs[i][j] / 8 for i, s in enumerate(names)}) for j in range(m)]
        form += [dict(experiment=x, error=j) for j in range(m)]
    e = dict(op="applied", exps=exps, outs=[], ok=True, exc="")
    try:
        res, = gen_run_with_quasi_prob()((probs, vals, form))
        e["outs"] = [read(r, ss) for r, ss in zip(res, strs)] + [[]] * (len(res) - len(strs))
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    evs.append(e)
    return dict(ev=evs)
