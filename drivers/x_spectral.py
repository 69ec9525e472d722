"""Spectral filtering (P29): whole runs and their stages."""
import itertools, random, warnings
import numpy as np
from pytket import Circuit, Qubit
from pytket.utils import QubitPauliOperator
from sympy import Symbol
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
from drivers.circ import unitary_part
from drivers.mocks import DetBackend, answer_mitex, run_parametric
from drivers.x_fit import operator, read
from drivers.x_meas import qnames, qps, strings


def shape_of(rng, most=16):
    while True:
        n, k = rng.choice([2, 2, 3, 4, 4, 5]), rng.choice([1, 1, 2, 2, 3, 4])
        if n ** k <= most:
            return n, k


def symbolic(rng, n, qs, syms):
    c = Circuit()
    for q in sorted(qs):
        c.add_qubit(q)
    for s in rng.sample(syms, len(syms)):
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            q = rng.choice(qs)
            if k < .5:
                getattr(c, rng.choice(["H", "S", "V", "X"]))(q)
            elif n > 1:
                getattr(c, rng.choice(["CX", "CZ"]))(*rng.sample(qs, 2))
            getattr(c, rng.choice(["Rx", "Ry", "Rz"]))(s, rng.choice(qs))
    c.H(rng.choice(qs))
    return c


def spectral(p):
    from qermit.spectral_filtering import SmallCoefficientSignalFilter, gen_spectral_filtering_MitEx
    rng = random.Random(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    warnings.simplefilter("ignore")
    n, _ = shape_of(rng)
    be = DetBackend(4)
    real = n in (2, 4) and rng.random() < .3
    tol = rng.choice([0, 0, 40, 1, 8, 16, 24, 20, 30]) if n in (2, 4) and not real else 0
    kw = {}
    if tol != 40 or rng.random() < .5:
        kw["signal_filter"] = SmallCoefficientSignalFilter(tol=tol / 8)
    table, log = {}, []

    def coords(w):
        sm = w.AnsatzCircuit.SymbolsDict._symbolic_map
        out = []
        for s in names.get(w.AnsatzCircuit.Shots, []):
            v = sm.get(s)
            j = round(float(v) * n / 2) if v is not None else -1
            out.append(j if v is not None and abs(float(v) - 2 * j / n) < 1e-9 else -1)
        return out if len(sm) == len(out) else out + [-1]

    def value(j, w, s):
        return table.setdefault((w.AnsatzCircuit.Shots, s, tuple(coords(w))), rng.randint(-8, 8)) / 8
    evs, names = [], {}
    try:
        if not real:
            kw["experiment_mitex"] = answer_mitex(be, value, log)
        M = gen_spectral_filtering_MitEx(be, n, **kw)
    except Exception as x:  # noqa
        return dict(ev=[dict(op="spectral", n=n, tol=tol, exps=[], outs=[], real=real, ok=False, exc=repr(x)[:300])])
    for run in range(rng.choice([1, 1, 2])):
        for d in (table, log, names):
            d.clear()
        k = rng.choice([0, 1, 1, 2, 3])
        shots = rng.sample(range(1, 99), k)
        if real:
            shots = [64 * v for v in shots]
        req, strs, dims, at, qss = [], [], [], [], []
        for sh in shots:
            dim = rng.choice([d for d in (1, 2, 3, 4) if n ** d <= 16])
            m = rng.randint(1, 3)
            qs = qnames(rng, m)
            syms = [Symbol(x) for x in rng.sample("abcdxyz", dim)]
            c = symbolic(rng, m, qs, syms)
            rng.shuffle(syms)
            where = [rng.randrange(n) for _ in syms]
            grid = np.linspace(0, 2, n, endpoint=False)
            sd = SymbolsDict.symbols_from_dict({s: float(grid[j]) for s, j in zip(syms, where)})
            names[sh] = syms
            o = operator(strings(rng, m, rng.choice([1, 1, 2, 3])), qs, rng)
            req.append(ObservableExperiment(AnsatzCircuit(c, sh, sd), ObservableTracker(o)))
            strs.append(list(o._dict))
            dims.append(dim)
            at.append(where)
            qss.append(qs)
        before = [(r.AnsatzCircuit.Circuit.copy(), dict(r.AnsatzCircuit.SymbolsDict._symbolic_map), dict(r.ObservableTracker._qubit_pauli_operator._dict)) for r in req]
        e = dict(op="spectral", n=n, tol=tol, exps=[], outs=[], real=real, ok=True, kept=True, exc="")
        evs.append(e)
        try:
            res = M.run(req)
        except Exception as x:  # noqa
            e.update(ok=False, exc=repr(x)[:300])
            return dict(ev=evs)
        e["kept"] = before == [(r.AnsatzCircuit.Circuit, dict(r.AnsatzCircuit.SymbolsDict._symbolic_map), dict(r.ObservableTracker._qubit_pauli_operator._dict)) for r in req]
        e["outs"] = [read(r, ss) for r, ss in zip(res, strs)] + [[]] * (len(res) - len(strs))
        for j, (sh, ss) in enumerate(zip(shots, strs)):
            x = dict(k=dims[j], at=at[j], ran=[], same=True, vals=[], n=len(qss[j]), gs=[], ls=[], c=[])
            e["exps"].append(x)
            if real:
                x["gs"] = [dict(g=g["g"], q=g["q"], a=g["a"]) for g in unitary_part(run_parametric(req[j]), qss[j])]
                x["ls"] = [[int(s[q]) for q in qss[j]] for s in ss]
                x["c"] = [round(8 * float(req[j].ObservableTracker._qubit_pauli_operator._dict[s])) for s in ss]
                x["vals"] = [[] for _ in ss]
                continue
            mine = [w for w in log if w.AnsatzCircuit.Shots == sh]
            x["ran"] = [coords(w) for w in mine]
            x["same"] = all(w.AnsatzCircuit.Circuit == req[j].AnsatzCircuit.Circuit and
                            w.ObservableTracker.qubit_pauli_operator._dict == req[j].ObservableTracker.qubit_pauli_operator._dict for w in mine) \
                and len(log) == sum(n ** d for d in dims)
            x["vals"] = [[table.get((sh, s, pt), 99) for pt in itertools.product(range(n), repeat=dims[j])] for s in ss]
    return dict(ev=evs)


def stages(p):
    from qermit.spectral_filtering import SmallCoefficientSignalFilter
    from qermit.spectral_filtering.spectral_filtering import (gen_fft_task, gen_flatten_task, gen_inv_fft_task, gen_mitigation_task,
                                                              gen_ndarray_to_dict_task, gen_obs_exp_grid_gen_task, gen_param_grid_gen_task,
                                                              gen_reshape_task, gen_result_extraction_task, gen_symbol_val_gen_task, gen_wire_copy_task)
    rng = random.Random(p["seed"])
    e = dict(op="stages", ok=True, exc="", shapes=[], flat=[], lengths=[], back=[], table=[], copies=[], points=[], ident=True, axes=True, filters=[], tol=0, picked=[], wanted=[])
    try:
        k = rng.choice([0, 1, 2, 3])
        shapes = [tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 3))) for _ in range(k)]
        grids, num, want = [], 0, []
        for sh in shapes:
            g = np.empty(sh, dtype=object)
            for pt in itertools.product(*[range(v) for v in sh]):
                g[pt] = num
                num += 1
            grids.append(g)
        flat, lengths, forms = gen_flatten_task()((grids,))
        e["shapes"] = [list(s) for s in shapes]
        e["flat"] = [int(v) for v in flat]
        e["lengths"] = list(lengths)
        S = [qps(l, [Qubit(0), Qubit(1)]) for l in strings(rng, 2, 3)]
        strs = [rng.sample(S, rng.randint(1, len(S))) for _ in shapes]
        of = [j for j, sh in enumerate(shapes) for _ in range(int(np.prod(sh)))]
        ops = [QubitPauliOperator({s: float(100 * v + S.index(s)) for s in rng.sample(strs[of[v]], len(strs[of[v]]))}) for v in range(num)]
        back, = gen_reshape_task()((ops, lengths, forms))
        e["back"] = [list(b.shape) for b in back]
        tab, = gen_ndarray_to_dict_task()((back,))
        e["table"] = [[[S.index(s), [round(float(v)) for v in tab[j][s].flatten()]] for s in tab[j]] for j in range(len(tab))]
        e["strs"] = [[S.index(s) for s in ss] for ss in strs]
        f, = gen_fft_task()((tab,))
        i, = gen_inv_fft_task()((f,))
        e["ident"] = all(np.allclose(i[j][s], tab[j][s], atol=1e-6) for j in range(len(tab)) for s in tab[j]) and [list(x) for x in i] == [list(x) for x in tab]
        a, b = rng.randint(1, 3), rng.randint(1, 3)
        ins = [[j] for j in range(a)]
        outs = gen_wire_copy_task(a, b)(tuple(ins))
        e["copies"] = [a, b] + [o[0] for o in outs]
        # the filter on exact coefficients
        re, im = [[rng.choice([0, 3, -4, 5, rng.randint(-9, 9)]) for _ in range(6)] for _ in (0, 1)]
        tol = rng.choice([0, 1, 5, 4, 3])
        src = {S[0]: np.array(re).reshape(2, 3) / 8 + 1j * np.array(im).reshape(2, 3) / 8}
        kept = src[S[0]].copy()
        out, = gen_mitigation_task(SmallCoefficientSignalFilter(tol / 8))(([src],))
        r = out[0][S[0]].flatten()
        e["tol"] = tol
        e["filters"] = [[x, y, round(float(v.real) * 8), round(float(v.imag) * 8)] for x, y, v in zip(re, im, r)]
        e["ident"] = e["ident"] and bool((kept == src[S[0]]).all())
        # experiments on a grid and reading one point of it
        req, at, nv = [], [], rng.randint(2, 4)
        for _ in range(rng.choice([1, 2])):
            syms = [Symbol(x) for x in rng.sample("abcd", rng.choice([1, 2]))]
            c = symbolic(rng, 1, [Qubit(0)], syms)
            where = [rng.randrange(nv) for _ in syms]
            sd = SymbolsDict.symbols_from_dict({s: float(np.linspace(0, 2, nv, endpoint=False)[j]) for s, j in zip(syms, where)})
            req.append(ObservableExperiment(AnsatzCircuit(c, 5, sd), ObservableTracker(QubitPauliOperator({qps([3], [Qubit(0)]): 1.0}))))
            at.append(where)
        r2, vals = gen_symbol_val_gen_task(nv)((req,))
        e["axes"] = r2 == req and all(np.allclose(v, np.linspace(0, 2, nv, endpoint=False)) for vs in vals for v in vs) and \
            [len(v) for v in vals] == [len(w) for w in at]
        mesh, = gen_param_grid_gen_task()((vals,))
        grid, = gen_obs_exp_grid_gen_task()((req, mesh))
        pts = []
        for g, r in zip(grid, req):
            for pt in itertools.product(range(nv), repeat=g.ndim):
                sm = g[pt].AnsatzCircuit.SymbolsDict._symbolic_map
                pts.append([list(pt), [round(float(sm[s]) * nv / 2) for s in r.AnsatzCircuit.SymbolsDict.symbols_list]])
        e["points"] = pts
        z = qps([3], [Qubit(0)])
        land = [{z: np.array([float(rng.randint(-50, 50)) for _ in range(nv ** len(w))]).reshape((nv,) * len(w))} for w in at]
        got, = gen_result_extraction_task()((land, req, vals))
        e["picked"] = [round(float(np.real(q._dict[z]))) for q in got]
        e["wanted"] = [round(float(l[z][tuple(w)])) for l, w in zip(land, at)]
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    e.setdefault("strs", [])
    return dict(ev=[e])
