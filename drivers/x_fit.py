import random, warnings
import numpy as np
from pytket import Bit, Circuit, OpType, Qubit
from pytket.pauli import QubitPauliString
from pytket.utils import QubitPauliOperator
from sympy import Symbol
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
from drivers.circ import UNIT, Inexact, gates, perm_swaps, unitary_part
from drivers.mocks import DetBackend, answer_mitex, run_parametric
from drivers.x_circ import pending, state_backend
from drivers.x_meas import qnames, qps, strings

FINE = 1000


def fine(v, unit=8):
    v = complex(v)
    return round(v.real * unit * FINE) if abs(v.imag) < 1e-9 and abs(v.real) < 10**5 else 10**9


def key(c):
    return repr([(x.op, x.args) for x in c.get_commands()])


def operator(ls, qs, rng):
    return QubitPauliOperator({qps(l, qs): rng.choice([1.0, .5, -2.0]) for l in ls})


def read(qpo, ss, unit=8):
    return [fine(qpo._dict[s], unit) if s in qpo._dict else 10**9 for s in ss] + [10**9] * len([s for s in qpo._dict if s not in ss])


# ------------------------------------------------------------------- R23 ---
def relation(rng, degree):
    k = rng.random()
    if k < .5:
        a, b = rng.choice([-2, -1, 1, 2, 3]), rng.randint(-4, 4)
        return lambda x: a * x + b
    if k < .7 and degree == 2:
        a, b, c = rng.choice([-1, 1]), rng.randint(-2, 2), rng.randint(-4, 4)
        return lambda x: a * x * x + b * x + c
    table = {x: rng.randint(-8, 8) for x in range(-8, 9)}
    return lambda x: table[x]


def cdr(p):
    from qermit.clifford_noise_characterisation.ccl import gen_CDR_MitEx
    from qermit.clifford_noise_characterisation.cdr_post import _PolyCDRCorrect
    rng = random.Random(p["seed"])
    random.seed(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    warnings.simplefilter("ignore")
    degree = rng.choice([1, 1, 1, 2])
    total = rng.choice([1, 2, 2, 3, 4])
    table = {}

    def value(kind, k, w, s):
        x = w.AnsatzCircuit.Shots
        kk = (x, s, key(w.AnsatzCircuit.Circuit), "n" if kind != "own" else "own")
        if kk not in table:
            table[kk] = rng.randint(-8, 8)
        v = table[kk]
        if kind == "sim":
            v = rel[x, s](v)
        return v / 8
    rel, logs = {}, dict(sim=[], dev=[], own=[])
    be = DetBackend(3)
    kw = {}
    if degree != 1 or rng.random() < .3:
        kw["model"] = _PolyCDRCorrect(degree)
    cut = None
    if rng.random() < .25:
        cut = rng.choice([-8, -4, 0])

        def keep(noisy, exact):
            return 1 if max(map(float, noisy._dict.values())) * 8 >= cut else 0
        kw["likelihood_function"] = keep
    if rng.random() < .5:
        kw.update(distance_tolerance=rng.choice([0, .1, 2]), calibration_fraction=rng.choice([0, .5, 1]))
    if rng.random() < .3:
        kw.update(tolerance=.01, max_state_circuits_attempts=2)
    evs = []
    try:
        m = gen_CDR_MitEx(be, state_backend(), rng.randint(1, 3), 1, total,
                          states_simulator_mitex=answer_mitex(be, lambda k, w, s: value("sim", k, w, s), logs["sim"]),
                          states_device_mitex=answer_mitex(be, lambda k, w, s: value("dev", k, w, s), logs["dev"]),
                          experiment_mitex=answer_mitex(be, lambda k, w, s: value("own", k, w, s), logs["own"]), **kw)
    except Exception as x:  # noqa
        return dict(ev=[dict(op="cdr", degree=degree, exps=[], outs=[], paired=True, ok=False, exc=repr(x)[:300])])
    for run in range(rng.choice([1, 1, 2])):
        for l in logs.values():
            l.clear()
        k = rng.choice([1, 1, 2, 3])
        shots = rng.sample(range(1, 99), k)
        req, strs = [], []
        for sh in shots:
            n = rng.randint(1, 3)
            qs = [Qubit(j) for j in range(n)]
            syms = [Symbol("a"), Symbol("b")] if rng.random() < .4 else []
            c = pending(rng, n, qs, [], syms, 0, ops=rng.randint(6, 12))
            sd = SymbolsDict.symbols_from_dict({s: rng.randint(1, 999) / 500 for s in syms})
            ls = strings(rng, n, rng.choice([1, 1, 2, 3]))
            o = operator(ls, qs, rng)
            req.append(ObservableExperiment(AnsatzCircuit(c, sh, sd), ObservableTracker(o)))
            strs.append(list(o._dict))
            for s in o._dict:
                rel[sh, s] = relation(rng, degree)
        e = dict(op="cdr", degree=degree, exps=[], outs=[], paired=True, ok=True, exc="")
        evs.append(e)
        try:
            res = m.run(req)
        except Exception as x:  # noqa
            e.update(ok=False, exc=repr(x)[:300])
            zeros = any(all(v == 0 for kk, v in table.items() if kk[:2] == (sh, s) and kk[3] == "n") for sh, ss in zip(shots, strs) for s in ss)
            if cut is not None or zeros:      # too little may be left to fit
                evs.pop()
            return dict(ev=evs)

        def bag(l):
            return sorted((w.AnsatzCircuit.Shots, key(run_parametric(w)), str(sorted(map(str, w.ObservableTracker.qubit_pauli_operator._dict))))
                          for w in l)
        e["paired"] = (bag(logs["sim"]) == bag(logs["dev"]) and len(logs["sim"]) == k * total
                       and sorted(w.AnsatzCircuit.Shots for w in logs["own"]) == sorted(shots))
        for sh, ss in zip(shots, strs):
            ex = []
            train = [w for w in logs["dev"] if w.AnsatzCircuit.Shots == sh]
            if cut is not None:
                train = [w for w in train if max(value("dev", 0, w, s) for s in w.ObservableTracker.qubit_pauli_operator._dict) * 8 >= cut]
            own = [w for w in logs["own"] if w.AnsatzCircuit.Shots == sh]
            for s in ss:
                ex.append(dict(pairs=[[int(8 * value("dev", 0, w, s)), int(8 * value("sim", 0, w, s))] for w in train],
                               noisy=int(8 * value("own", 0, own[0], s)) if own else 99, infit=bool(train)))
            e["exps"].append(ex)
        e["outs"] = [read(r, ss) for r, ss in zip(res, strs)] + [[]] * (len(res) - len(strs))
    return dict(ev=evs)


def cdrtasks(p):
    """The batching, calibration and correction tasks on their own."""
    from qermit.clifford_noise_characterisation.ccl import ccl_result_batching_task_gen
    from qermit.clifford_noise_characterisation.cdr_post import (_PolyCDRCorrect, cdr_calibration_task_gen, cdr_correction_task_gen,
                                                                 cdr_quality_check_task_gen)
    rng = random.Random(p["seed"])
    warnings.simplefilter("ignore")
    degree = rng.choice([1, 1, 2])
    total = rng.randint(2, 4)
    k = rng.choice([1, 2, 3])
    qs = qnames(rng, 2)
    allS = [qps(l, qs) for l in strings(rng, 2, 4)]

    class Obj:
        characterisation = {}
    Obj.characterisation = {}
    e = dict(op="cdr", degree=degree, exps=[], outs=[], paired=True, ok=True, exc="")
    fits = [rng.sample(allS, rng.randint(1, len(allS))) for _ in range(k)]
    owns = [rng.sample(allS, rng.randint(1, len(allS))) for _ in range(k)]
    noisy, exact, ps = [], [], []
    for j in range(k):
        rels = {s: relation(rng, degree) for s in allS}
        pairs = {s: [] for s in allS}
        for _ in range(total):
            v = {s: rng.randint(-8, 8) for s in fits[j]}
            for s in v:
                pairs[s].append([v[s], rels[s](v[s])])
            noisy.append(QubitPauliOperator({s: v[s] / 8 for s in fits[j]}))
            exact.append(QubitPauliOperator({s: rels[s](v[s]) / 8 for s in rng.sample(fits[j], len(fits[j]))}))
        ps.append(pairs)
    own = [{s: rng.randint(-8, 8) for s in o} for o in owns]
    oq = [QubitPauliOperator({s: v / 8 for s, v in o.items()}) for o in own]
    try:
        batched, = ccl_result_batching_task_gen(total)((exact, noisy))
        oq2, batched = cdr_quality_check_task_gen(rng.choice([0, .1]), rng.choice([0, 1]))((oq, batched))
        t1, t2 = cdr_calibration_task_gen(_PolyCDRCorrect(degree)), cdr_correction_task_gen()
        chars = rng.choice([{}, {"CDR_0": {}, "CDR_7": {allS[0]: None}}])
        t1.characterisation = chars
        done, = t1((batched,))
        t2.characterisation = t1.characterisation
        res, = t2((done, oq2))
        for j in range(k):
            e["exps"].append([dict(pairs=ps[j][s], noisy=own[j][s], infit=s in fits[j]) for s in owns[j]])
        e["outs"] = [read(r, ss) for r, ss in zip(res, owns)]
        # a fit of too few different points is whatever it is
    except Exception as x:  # noqa
        if any(v and all(x[0] == 0 for x in v) for pairs in ps for v in pairs.values()):
            return dict(ev=[])      # no line through points at zero only
        e.update(ok=False, exc=repr(x)[:300])
    return dict(ev=[e])


# ------------------------------------------------------------------- R24 ---
def stabiliser(rng, n, qs, syms, bad):
    c = Circuit()
    for q in sorted(qs):
        c.add_qubit(q)
    for _ in range(rng.randint(0, 8)):
        k = rng.random()
        q = rng.choice(qs)
        if k < .35 and n > 1:
            getattr(c, rng.choice(["CX", "CZ", "SWAP", "CY"]))(*rng.sample(qs, 2))
        elif k < .65:
            getattr(c, rng.choice(["H", "S", "V", "X", "Sdg", "Y", "Z", "Vdg"]))(q)
        elif k < .9 and syms:
            a = rng.choice(syms)
            getattr(c, rng.choice(["Rz", "Ry", "Rx"]))(rng.choice([a, -a, 2 * a, a + .5, a - 1, a]), q)
        elif bad:
            c.Rz(rng.randint(1, 249) / 500, q)
    if rng.random() < .25:
        c.replace_SWAPs()
    return c


def dfsc(p):
    from qermit.clifford_noise_characterisation.dfsc import (DFSC_circuit_task_gen, gen_DFSC_MitEx)
    rng = random.Random(p["seed"])
    k = rng.choice([0, 1, 1, 2, 3])
    bad = rng.random() < .08
    be = DetBackend(3)
    shots = rng.sample(range(1, 99), k)
    req, strs, info, evs = [], [], [], []
    for sh in shots:
        n = rng.randint(1, 3)
        qs = qnames(rng, n)
        rng.shuffle(qs)
        syms = [Symbol("a"), Symbol("b")] if rng.random() < .8 else []
        c = stabiliser(rng, n, qs, syms, bad)
        sd = SymbolsDict.symbols_from_dict({s: rng.randint(1, 999) / 500 for s in syms})
        ls = strings(rng, n, rng.choice([1, 1, 2, 3]))
        o = operator(ls, qs, rng)
        req.append(ObservableExperiment(AnsatzCircuit(c, sh, sd), ObservableTracker(o)))
        strs.append(list(o._dict))
        info.append((n, qs, {s: l for s, l in zip(o._dict, ls)}))

    def zero(c, f):
        d = c.copy()
        d.symbol_substitution({s: 0.0 for s in d.free_symbols()})
        return f(d)
    log, own = [], []
    unit = rng.choice([8, 32])
    fac, noi = {}, {}
    for x, sh in enumerate(shots):
        for s in strs[x]:
            fac[sh, s] = rng.choice([rng.randint(-8, 8), rng.randint(1, 8), 0, unit, -unit, 1])
            noi[sh, s] = rng.randint(-32, 32)
    thr, thrD = rng.choice([(1, 100), (1, 100), (1, 8), (1, 4), (0, 1)])
    kw = dict(DFSC_threshold=thr / thrD) if (thr, thrD) != (1, 100) or rng.random() < .5 else {}
    ok, exc, outs = True, "", []
    try:
        m = gen_DFSC_MitEx(be, experiment_mitex=answer_mitex(be, lambda j, w, s: noi[w.AnsatzCircuit.Shots, s] / unit, own),
                           characterisation_mitex=answer_mitex(be, lambda j, w, s: fac[w.AnsatzCircuit.Shots, s] / unit, log), **kw)
        res = m.run(req)
        outs = [read(r, ss, unit) for r, ss in zip(res, strs)] + [[]] * (len(res) - len(strs))
    except Exception as x:  # noqa
        ok, exc = False, repr(x)[:300]
    cliff = True
    for (n, qs, ls), sh, ss, r in zip(info, shots, strs, req):
        base = zero(r.AnsatzCircuit.Circuit, lambda c: unitary_part(c, qs))
        for s in ss:
            e = dict(op="calib", n=n, base=base, full=[], meas=[], mq=[], p=ls[s], ok=ok, exc=exc, invert=False, units=True)
            if ok:
                ws = [w for w in log if w.AnsatzCircuit.Shots == sh and list(w.ObservableTracker.qubit_pauli_operator._dict) == [s]]
                e["ok"] = len(ws) == 1
                if len(ws) == 1:
                    w, = ws
                    c = run_parametric(w)
                    e["units"] = c.qubits == sorted(qs)
                    e["full"] = unitary_part(c, qs)
                    t = w.ObservableTracker
                    mcs = t.measurement_circuits
                    i = (None,) + t._qps_to_indices[s][0][1:]
                    mc = mcs[0].get_parametric_circuit()
                    # measurements are on the wires before any relabelling at the end
                    moved = len(perm_swaps(mc, {q: j for j, q in enumerate(qs)}))
                    u = unitary_part(mc, qs)
                    e["meas"] = u[:len(u) - moved]
                    m_ = [(g["q"][0], g["b"]) for g in gates(mc, qs) if g["g"] == "Measure"]
                    read_ = [str(b) for b in i[1]]
                    e["mq"] = [q for q, b in m_ if b[0] in read_]
                    e["invert"] = bool(i[2]) or len(mcs) != 1 or len(e["mq"]) != len(read_)
            evs.append(e)
        cliff = cliff and not bad
    kept = [w.AnsatzCircuit for w in own] == [r.AnsatzCircuit for r in req] if ok else True
    refused = not ok and bad
    if not refused:
        evs.append(dict(op="dfsc", exps=[[dict(noisy=noi[sh, s], factor=fac[sh, s]) for s in ss] for sh, ss in zip(shots, strs)],
                        outs=outs, ok=ok, exc=exc, thr=thr, thrD=thrD, unit=unit, kept=kept))
    else:
        evs = [e for e in evs if any((g["g"] == "Rz" and g["a"][0] % (UNIT // 2)) for g in e["base"])]
    return dict(ev=evs)
