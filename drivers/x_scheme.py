"""Composed schemes on requests with deterministic outcomes (G30, G31)."""
import random, warnings
import numpy as np
from pytket import Bit, Circuit, OpType, Qubit
from pytket.architecture import Architecture, FullyConnected
from pytket.circuit import Node
from pytket.utils import QubitPauliOperator
from sympy import Symbol
from qermit import AnsatzCircuit, CircuitShots, MitEx, MitRes, ObservableExperiment, ObservableTracker, SymbolsDict
from drivers.circ import unitary_part
from drivers.mocks import DetBackend, branches, run_parametric
from drivers.x_circ import state_backend
from drivers.x_fit import operator
from drivers.x_meas import PS, qps

SHOTS = 64


def first(t):
    return t["s"][0] if t["s"] else t


def last(t):
    return t["s"][-1] if t["s"] else t


class Build:
    """Turns an abstract composition into one of the library's."""

    def __init__(self, rng, be, n, ctx):
        self.rng, self.be, self.n, self.ctx = rng, be, n, ctx
        self.name, self.random, self.total = [], False, 1

    def note(self, s):
        self.name.append(s)

    # ---------------------------------------------------------------- MitRes
    def res(self, t):
        from qermit.frame_randomisation import FrameRandomisation, gen_Frame_Randomisation_MitRes
        from qermit.leakage_detection import get_leakage_detection_mitres
        from qermit.spam import gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes
        from qermit.taskgraph import gen_compiled_MitRes, gen_shot_split_MitRes
        from qermit.taskgraph.mitex import gen_compiled_shot_split_MitRes
        rng, be, k = self.rng, self.be, t["k"]
        if k == "leaf":
            w = rng.random()
            self.note("leaf")
            if w < .4 and not self.ctx.get("symbols"):
                return MitRes(be)
            return gen_compiled_MitRes(be, rng.choice([0, 1, 2]))
        if k == "map":
            if self.ctx.get("leak") and rng.random() < .5:
                self.note("leak")
                self.ctx["leak"] = False          # one gadget per qubit
                m = get_leakage_detection_mitres(be, mitres=self.res(first(t)))
                return m
            m = self.res(first(t))
            from qermit.taskgraph import backend_compile_circuit_shots_task_gen
            m.prepend(backend_compile_circuit_shots_task_gen(be, rng.choice([0, 1])))
            self.note("compile")
            return m
        if k == "many":
            if first(t)["k"] == "leaf" and rng.random() < .5:
                self.note("split")
                mx = rng.choice([7, 16, 30, 200])
                return rng.choice([gen_shot_split_MitRes, gen_compiled_shot_split_MitRes])(be, mx)
            self.note("fr")
            self.random = True
            samples = rng.choice([1, 2, 4])
            fr = rng.choice([FrameRandomisation.UniversalFrameRandomisation, FrameRandomisation.PauliFrameRandomisation])
            return gen_Frame_Randomisation_MitRes(be, samples, mitres=self.res(first(t)), frame_randomisation=fr)
        a, b = first(t), last(t)
        kw = dict(calibration_mitres=self.plain(a), correction_mitres=self.res(b))
        if rng.random() < .3:
            kw.pop("calibration_mitres")
        self.note("spam")
        nodes = list(be.backend_info.architecture.nodes)
        if rng.random() < .5:
            return gen_UnCorrelated_SPAM_MitRes(be, 48, **kw)
        rng.shuffle(nodes)
        cut = rng.randint(0, min(3, len(nodes) - 1))
        parts = [nodes[:cut]] if cut else []
        parts += [[x] for x in nodes[cut:]]
        rng.shuffle(parts)
        return gen_FullyCorrelated_SPAM_MitRes(be, 48, parts, **kw)

    def plain(self, t):
        """A MitRes for calibration circuits."""
        keep = dict(self.ctx)
        self.ctx["leak"] = False
        m = self.res(t)
        self.ctx["leak"] = keep.get("leak")
        return m

    # ----------------------------------------------------------------- MitEx
    def base(self, t):
        """A MitEx around a MitRes, measured string by string or reduced."""
        from qermit.taskgraph import gen_MeasurementReduction_MitEx
        rng = self.rng
        e = MitEx(self.be, mitres=self.res(t)) if t["k"] != "leaf" or rng.random() < .6 else MitEx(self.be)
        if rng.random() < .3:
            self.note("reduced")
            e = gen_MeasurementReduction_MitEx(self.be, mitex=e)
        return e

    def exp(self, t, top=True):
        from qermit.clifford_noise_characterisation.ccl import gen_CDR_MitEx
        from qermit.clifford_noise_characterisation.dfsc import gen_DFSC_MitEx
        from qermit.probabilistic_error_cancellation.pec_learning_based import gen_PEC_learning_based_MitEx
        from qermit.spectral_filtering import SmallCoefficientSignalFilter, gen_spectral_filtering_MitEx
        from qermit.taskgraph import gen_MeasurementReduction_MitEx
        from qermit.zero_noise_extrapolation import Fit, Folding, gen_ZNE_MitEx
        rng, be, k = self.rng, self.be, t["k"]
        if k == "leaf":
            return self.base(t)
        if k == "map":
            if rng.random() < .5:
                return self.base(first(t))
            self.note("reduced")
            return gen_MeasurementReduction_MitEx(be, mitex=self.exp(first(t), False)) if first(t)["k"] in ("leaf", "map") else self.exp(first(t), False)
        if k == "many":
            if self.ctx.get("grid"):
                self.note("spectral")
                g = self.ctx.pop("grid")
                self.ctx["symbols"] = True
                kw = dict(experiment_mitex=self.exp(first(t), False)) if rng.random() < .7 else dict(experiment_mitres=self.substituted(first(t)))
                return gen_spectral_filtering_MitEx(be, g, signal_filter=SmallCoefficientSignalFilter(tol=0), **kw)
            return self.base(t)
        if k == "par":
            self.note("zne")
            scal = rng.choice([[1, 2], [1, 3], [1, 2, 3], [1, 1.5, 3], [3, 1]])
            kw = dict(fit_type=rng.choice([Fit.linear, Fit.polynomial, Fit.richardson]),
                      folding_type=rng.choice([Folding.circuit, Folding.gate, Folding.two_qubit_gate]))
            if any(isinstance(s, float) for s in scal):
                kw["folding_type"] = Folding.gate
            if kw["fit_type"] == Fit.polynomial:
                kw["deg"] = rng.randint(1, len(scal) - 1)
            if kw["folding_type"] == Folding.circuit:
                scal = [s for s in scal if s % 2 == 1] if len([s for s in scal if s % 2 == 1]) > 1 else [1, 3]
                kw["deg"] = 1 if kw["fit_type"] == Fit.polynomial else kw.get("deg", 1)
            if rng.random() < .7:
                kw["experiment_mitex"] = self.exp(first(t), False)
            else:
                kw["experiment_mitres"] = self.substituted(first(t))
            self.random = self.random or kw["folding_type"] != Folding.circuit
            return gen_ZNE_MitEx(be, scal, seed=rng.randint(0, 99), optimisation_level=0, **kw)
        a, b = first(t), last(t)
        if self.ctx.get("cdr") and top:
            self.note("cdr")
            self.random = True
            self.ctx["plain"] = True                # circuits are not Clifford
            kw = dict(experiment_mitex=self.exp(b, False), states_device_mitex=self.exp(a, False),
                      states_simulator_mitex=MitEx(DetBackend(be.n)))
            return gen_CDR_MitEx(be, state_backend(), 2, 1, 6, **kw)
        if self.ctx.get("pec") and top:
            self.note("pec")
            self.random = True
            return gen_PEC_learning_based_MitEx(be, state_backend(), num_cliff=2, seed=rng.randint(0, 99), device_mitex=self.base(b),
                                                simulator_mitex=self.base(a))
        if self.ctx.get("plain"):
            return self.exp(b, False)
        self.note("dfsc")
        self.ctx["symbols"] = True
        return gen_DFSC_MitEx(be, experiment_mitex=self.exp(b, False), characterisation_mitex=self.exp(a, False))

    def substituted(self, t):
        return self.res(t)


# --------------------------------------------------------------------- device
def device(rng, n, noisy):
    """A device that answers exactly, or with the same errors every time."""
    def noise(c, d):
        if not c.bits:
            return d
        two = sum(1 for x in c.get_commands() if len(x.qubits) == 2 and x.op.type != OpType.Barrier)
        p = .05 + .02 * (two % 7)
        for j in range(len(c.bits)):
            new = {}
            for b, w in d.items():
                f = b[:j] + (1 - b[j],) + b[j + 1:]
                new[b] = new.get(b, 0) + w * (1 - p)
                new[f] = new.get(f, 0) + w * p
            d = new
        return d
    return DetBackend(n, arch=FullyConnected(n), noise=noise if noisy else None)


def clifford(rng, n, qs, depth):
    c = Circuit()
    for q in sorted(qs):
        c.add_qubit(q)
    for _ in range(rng.randint(1, depth)):
        k = rng.random()
        if k < .4 and n > 1:
            getattr(c, rng.choice(["CX", "CX", "CZ", "SWAP"]))(*rng.sample(qs, 2))
        else:
            getattr(c, rng.choice(["H", "S", "V", "X", "Sdg", "Y", "Z", "Vdg"]))(rng.choice(qs))
    if rng.random() < .3:
        c.replace_SWAPs()
    return c


def stabilised(c, qs, rng, most):
    """Strings that have a definite value on the state a Clifford circuit prepares."""
    n = len(qs)
    from itertools import product
    out = []
    v = c.get_statevector() if c.n_qubits else None
    order = c.qubits
    for ls in product(range(4), repeat=n):
        if not any(ls):
            continue
        s = qps(ls, qs)
        e = s.state_expectation(v, order).real
        if abs(abs(e) - 1) < 1e-6:
            out.append(list(ls))
    return rng.sample(out, min(len(out), rng.randint(1, most)))


def frozen(reqs):
    return [(id(r), r.AnsatzCircuit.Circuit.copy(), r.AnsatzCircuit.Circuit.qubits, r.AnsatzCircuit.Shots) for r in reqs]


def exp(p):
    rng = random.Random(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    random.seed(p["seed"])
    warnings.simplefilter("ignore")
    t, k = p["tree"], p["n"]
    grid = 4 if "many" in str(t) and rng.random() < .6 else 0
    noisy = rng.random() < .35
    ctx = dict(grid=grid, symbols=bool(grid), leak=False)
    if t["k"] == "cal" and not grid:
        ctx[rng.choice(["cdr", "pec", "dfsc", "dfsc"])] = True
    be = device(rng, 4, noisy)
    b = Build(rng, be, 3, ctx)
    evs = []
    e0 = dict(op="exp", ok=True, run=1, ideal=not noisy, repeatable=True, reqs=[], outs=[], circuits=True, operators=True, symbols=True, trackers=True, requests=True, exc="", name="")
    try:
        M = b.exp(t)
    except Exception as x:  # noqa
        e0.update(ok=False, exc="build " + " ".join(b.name) + repr(x)[:250])
        return dict(ev=[e0])
    e0["name"] = " ".join(b.name)
    if "pec" in b.name or "cdr" in b.name:
        # what is learnt from training circuits alike is not determined (see R23 and E28)
        e0["ideal"] = False
    if noisy and b.random:
        e0["repeatable"] = False
    if "pec" in b.name or "cdr" in b.name:
        e0["repeatable"] = False
    reqs, info, qss = [], [], []
    default = "cdr" in b.name or "pec" in b.name
    for j in range(k):
        n = rng.randint(1, 3)
        if "pec" in b.name or "zne" in b.name:
            n = max(n, 2)
        reg = "q" if default else rng.choice(["q", "q", "a"])
        qs = [Qubit(reg, x) for x in range(n)]
        c = clifford(rng, n, qs, 7)
        if "zne" in b.name or "pec" in b.name:
            c.CX(qs[0], qs[1]).H(qs[0]).S(qs[0])
        sk = unitary_part(c, qs)
        syms = {}
        if grid or (ctx.get("dfsc") and rng.random() < .7):
            names = rng.sample("abx", rng.choice([1, 1, 2]))
            for s in names:
                s = Symbol(s)
                if grid:
                    syms[s] = rng.randrange(4) / 2
                else:
                    syms[s] = rng.choice([0, .5, 1, 1.5, 0])
                getattr(c, rng.choice(["Rz", "Rx", "Ry"]))(s, rng.choice(qs))
            if rng.random() < .5:
                c.H(rng.choice(qs))
        if default and "cdr" in b.name:
            for q in qs[:2] + [qs[0]]:
                a = rng.randint(1, 240) / 500
                c.H(q).Rz(a, q).H(q).H(q).Rz(-a, q).H(q)
        plain = c.copy()
        plain.symbol_substitution(syms)
        if "cdr" in b.name:
            g = sk
            strs = None
        else:
            g = unitary_part(plain, qs)
        strs = stabilised(plain, qs, rng, 3)
        o = operator(strs, qs, rng)
        if j and not default and rng.random() < .25:
            # another circuit, whose observable is tracked by the same object
            qs, strs = qss[-1], info[-1]["ls"]
            r = reqs[-1].AnsatzCircuit
            c, n = r.Circuit.copy(), info[-1]["n"]
            for q in rng.sample(qs, rng.randint(1, n)):
                getattr(c, rng.choice("XYZ"))(q)
            syms = dict(r.SymbolsDict._symbolic_map)
            plain = c.copy()
            plain.symbol_substitution(syms)
            g = unitary_part(plain, qs)
            ex = ObservableExperiment(AnsatzCircuit(c, SHOTS + j, SymbolsDict.symbols_from_dict(syms) if syms else SymbolsDict()), reqs[-1].ObservableTracker)
            reqs.append(ex)
            qss.append(qs)
            info.append(dict(n=n, gs=[dict(g=x["g"], q=x["q"], a=x["a"]) for x in g], ls=strs, c=info[-1]["c"]))
            continue
        ex = ObservableExperiment(AnsatzCircuit(c, SHOTS + j, SymbolsDict.symbols_from_dict(syms) if syms else SymbolsDict()), ObservableTracker(o))
        if j and rng.random() < .2:
            ex, (strs, g, n) = reqs[-1], (info[-1]["ls"], info[-1]["gs"], info[-1]["n"])     # the very same request twice
            o = ex.ObservableTracker._qubit_pauli_operator
            qs = qss[-1]
        reqs.append(ex)
        qss.append(qs)
        info.append(dict(n=n, gs=[dict(g=x["g"], q=x["q"], a=x["a"]) for x in g] if isinstance(g, list) else g, ls=[list(s) for s in strs],
                         c=[round(8 * float(o._dict[qps(s, qs)])) for s in strs]))
    e0["reqs"] = info

    def state():
        return ([(r.AnsatzCircuit.Circuit.copy(), r.AnsatzCircuit.Circuit.qubits, r.AnsatzCircuit.Circuit.bits, r.AnsatzCircuit.Shots) for r in reqs],
                [(dict(r.ObservableTracker._qubit_pauli_operator._dict), list(r.ObservableTracker._qubit_pauli_operator._dict)) for r in reqs],
                [dict(r.AnsatzCircuit.SymbolsDict._symbolic_map) for r in reqs],
                [(len(r.ObservableTracker._measurement_circuits), {s: list(v) for s, v in r.ObservableTracker._qps_to_indices.items()},
                  len(r.ObservableTracker._partitions) if hasattr(r.ObservableTracker, "_partitions") else 0) for r in reqs],
                [id(r) for r in req_list])
    req_list = list(reqs)
    before = state()
    for run in range(1, rng.choice([2, 3, 3]) + 1):
        e = dict(e0, run=run, outs=[])
        evs.append(e)
        np.random.seed(7)
        random.seed(7)
        try:
            res = M.run(req_list)
        except Exception as x:  # noqa
            if isinstance(x, np.linalg.LinAlgError) and "cdr" in b.name:
                return dict(ev=[])      # no line through training points at zero only
            if "larger frame than Circuit" in repr(x):
                return dict(ev=[])      # pytket fails to find the cycles of some circuits
            e.update(ok=False, exc=e["name"] + ": " + repr(x)[:250])
            res = None
        now = state()
        for key, v, w in zip(("circuits", "operators", "symbols", "trackers", "requests"), before, now):
            e[key] = v == w
        if res is None:
            break
        for j, r in enumerate(res):
            known = {qps(s, qss[j]): x + 1 for x, s in enumerate(info[j]["ls"])} if j < len(info) else {}
            e["outs"].append(sorted([known.get(s, 0), round(float(np.real(complex(v))) * 8000)] for s, v in r._dict.items()))
    return dict(ev=evs)


def res(p):
    from qermit.coherent_pauli_checks import DeterministicXPauliSampler, DeterministicZPauliSampler
    from qermit.coherent_pauli_checks.coherent_pauli_checks_mitres import gen_coherent_pauli_check_mitres
    from qermit.postselection import PostselectMgr
    from qermit.postselection.postselect_mitres import gen_postselect_mitres
    rng = random.Random(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    random.seed(p["seed"])
    warnings.simplefilter("ignore")
    t, k = p["tree"], p["n"]
    noisy = rng.random() < .35
    be = device(rng, 6, noisy)
    kind = rng.choice(["plain", "plain", "plain", "post", "cpc"])
    ctx = dict(leak=kind == "plain")
    b = Build(rng, be, 3, ctx)
    e0 = dict(op="res", ok=True, run=1, ideal=not noisy, repeatable=True, reqs=[], outs=[], circuits=True, operators=True, symbols=True, trackers=True, requests=True, exc="", name="")
    check = Bit("zchk", 0)
    own = [Bit(j) for j in range(3)]
    try:
        if kind == "cpc":
            b.note("cpc")
            M = gen_coherent_pauli_check_mitres(be, rng.choice([DeterministicXPauliSampler, DeterministicZPauliSampler])())
        else:
            M = b.res(t)
        if kind == "post":
            b.note("post")
            M = gen_postselect_mitres(be, PostselectMgr(compute_cbits=own, postselect_cbits=[check]), mitres=M)
    except Exception as x:  # noqa
        e0.update(ok=False, exc="build " + " ".join(b.name) + repr(x)[:250])
        return dict(ev=[e0])
    e0["name"] = " ".join(b.name)
    e0["repeatable"] = not (noisy and b.random)
    reqs, info, want = [], [], []
    for j in range(k):
        n = rng.randint(1, 3)
        reg = rng.choice(["q", "q", "a"]) if kind != "cpc" else "q"
        qs = [Qubit(reg, x) for x in range(n)]
        while True:
            c = clifford(rng, n, qs, 7)
            g = unitary_part(c, qs)
            bits = own if kind == "post" else [Bit(rng.choice(["c", "z"]), x) for x in rng.sample(range(4), rng.randint(1, n))]
            c2 = c.copy()
            for x in bits:
                c2.add_bit(x)
            mq = rng.sample(qs, min(n, len(bits)))
            frm = {x: qs.index(q) + 1 for x, q in zip(bits, mq)}
            for q, x in zip(mq, bits):
                c2.Measure(q, x)
            if len(branches(c2)) == 1:
                break
        if kind == "post":
            a = Qubit("anc", 0)
            c2.add_qubit(a)
            c2.add_bit(check)
            c2.Measure(a, check)
        sh = rng.randint(20, 60)
        cs = CircuitShots(c2, sh)
        bl = sorted(bits)
        d = dict(n=n, gs=[dict(g=x["g"], q=x["q"], a=x["a"]) for x in g], **{"from": [frm.get(x, 0) for x in bl]})
        exact = not b.random
        low = 0 if noisy and ("leak" in b.name or kind in ("post", "cpc")) else sh
        d["total"] = [low, sh if exact else 64 * sh]
        if j and rng.random() < .2:
            cs, d, bl = reqs[-1], info[-1], want[-1]
        reqs.append(cs)
        info.append(d)
        want.append(bl)
    e0["reqs"] = info
    evs = []
    req_list = list(reqs)

    def state():
        return [(r.Circuit.copy(), r.Circuit.qubits, r.Circuit.bits, r.Shots) for r in reqs], [id(r) for r in req_list]
    before = state()
    for run in range(1, rng.choice([2, 3]) + 1):
        e = dict(e0, run=run, outs=[])
        evs.append(e)
        try:
            out = M.run(req_list)
        except Exception as x:  # noqa
            if "larger frame than Circuit" in repr(x):
                return dict(ev=[])      # pytket fails to find the cycles of some circuits
            e.update(ok=False, exc=e["name"] + ": " + repr(x)[:250])
            out = None
        now = state()
        e["circuits"], e["requests"] = before[0] == now[0], before[1] == now[1]
        if out is None:
            break
        for r, bl in zip(out, want):
            ok = set(r.c_bits) == set(bl) and len(r.c_bits) == len(bl)
            e["outs"].append(dict(bits=ok, c=sorted([list(map(int, w)), int(v)] for w, v in r.get_counts(bl).items() if v) if ok else []))
        e["outs"] += [dict(bits=False, c=[])] * (len(out) - len(want))
    return dict(ev=evs)
