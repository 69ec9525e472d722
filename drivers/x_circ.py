import random
from collections import Counter
import numpy as np
from pytket import Bit, Circuit, OpType, Qubit
from pytket.passes import AutoRebase, RemoveRedundancies
from qermit import CircuitShots
from qermit.frame_randomisation.frame_randomisation import (FrameRandomisation, frame_randomisation_circuits_task_gen,
                                                            frame_randomisation_result_task_gen, gen_Frame_Randomisation_MitRes)
from qermit.zero_noise_extrapolation.zne import Folding
from drivers.circ import UNIT, Inexact, whole
from drivers.mocks import DetBackend
from drivers.x_boxes import circuit
from drivers.x_meas import qnames
from drivers.x_noise import nmodel, op_of, rgate
from drivers.x_shots import rec, result


def bnames(rng, n):
    reg = rng.choice(["c", "c", "m", "z"])
    bits = [Bit(reg, k + rng.choice([0, 0, 2])) for k in range(n)]
    return list(dict.fromkeys(bits))


def swaps(rng, c):
    """Sometimes let SWAP gates be a relabelling instead."""
    if rng.random() < .3:
        c.replace_SWAPs()
    return c


# ------------------------------------------------------------------- F13 ---
def small(rng, n, qs, bits):
    k = rng.random()
    if k < .08:
        c = Circuit()
        for x in qs:
            c.add_qubit(x)
        for x in bits:
            c.add_bit(x)
        if rng.random() < .5:
            c.Rz(.002 * rng.randint(1, 400), qs[0])
    else:
        c = circuit(rng, n, qs, bits if k < .5 or not bits else bits, depth=8)
    if rng.random() < .7:
        for q, b in zip(qs, bits):
            c.Measure(q, b)
    return c


def read_then_written(c):
    """The library that samples frames gives up (aborts) on these."""
    read = set()
    for x in c.get_commands():
        bs = [b for b in x.args if isinstance(b, Bit)]
        if x.op.type == OpType.Conditional:
            w = x.op.width
            if read & set(bs[w:]):
                return True
            read |= set(bs[:w])
        elif x.op.type == OpType.Barrier and bs:
            return True
        elif read & set(bs):
            return True
    return False


FR = [FrameRandomisation.PauliFrameRandomisation, FrameRandomisation.UniversalFrameRandomisation]


def frame(p):
    rng = random.Random(p["seed"])
    n = rng.randint(1, 3)
    nb = rng.randint(1, 2)
    qs = qnames(rng, n)
    rng.shuffle(qs)
    bits = bnames(rng, nb)
    samples = rng.choice([1, 2, 3])
    circs = [small(rng, n, qs, bits) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    circs = [c for c in circs if not read_then_written(c)]
    shots = [rng.choice([0, 1, 2, 5, 7, 10, 100]) for _ in circs]
    tags = {}
    req = []
    which = rng.randint(0, 1)
    for c, s in zip(circs, shots):
        x = swaps(rng, c)
        if any(g.op.type == OpType.Conditional for g in c.get_commands()):
            x = c.copy()
            AutoRebase({OpType.CX, OpType.Rz, OpType.H, OpType.S} if which == 0 else {OpType.CX, OpType.Rz, OpType.H}).apply(x)
        req.append(dict(gs=whole(x, qs, bits, tags), shots=s))
    e = dict(op="frame", m=n + len(bits), circs=req, samples=samples, ok=True, exc="", outs=[])
    try:
        t = frame_randomisation_circuits_task_gen(samples, FR[which])
        r, = t(([CircuitShots(c, s) for c, s in zip(circs, shots)],))
    except Exception as x:  # noqa
        if "larger frame than Circuit" in repr(x):
            return dict(ev=[])      # pytket fails to find the cycles of some circuits
        e.update(ok=False, exc=repr(x)[:300])
        return dict(ev=[e])
    e["outs"] = [dict(gs=whole(c, qs, bits, tags), shots=s, units=c.qubits == sorted(qs) and c.bits == sorted(bits)) for c, s in r]
    return dict(ev=[e])


def merge(p):
    rng = random.Random(p["seed"])
    samples = rng.choice([1, 2, 3, 5])
    k = rng.choice([0, 1, 1, 2, 3])
    nb = rng.randint(1, 3)
    e = dict(op="merge", samples=samples, ok=True, exc="", ins=[], outs=[], bits=[])
    try:
        if rng.random() < .4:
            t = frame_randomisation_result_task_gen(samples)
            ins = []
            for _ in range(k):
                bits = bnames(rng, nb)
                if rng.random() < .3:
                    bits = [Bit(rng.choice("ab"), j) for j in rng.sample(range(5), nb)]
                e["bits"].append([str(b) for b in bits])
                for _ in range(samples):
                    b = bits[:]
                    rng.shuffle(b)
                    ins.append(result(rng, b, rng.randint(1, 6), rng.random() < .5))
            e["ins"] = [rec(r) for r in ins]
            out, = t((ins,))
        else:
            req, ids = [], []
            n = rng.randint(1, 2)
            same = rng.random() < .3
            for j in range(k):
                bits = bnames(rng, nb)
                c = Circuit()
                for q in range(n):
                    c.add_qubit(Qubit(q))
                for b in bits:
                    c.add_bit(b)
                c.H(0)
                for i, b in enumerate(bits):
                    c.Measure(Qubit(i % n), b)
                if same and req:
                    c = req[0].Circuit.copy() if rng.random() < .5 else req[0].Circuit
                req.append(CircuitShots(c, rng.randint(1, 9)))
                e["bits"].append([str(b) for b in c.bits])
            ans = {}

            def answer(c, s, i):
                b = list(c.bits)
                rng.shuffle(b)
                ans[i] = result(rng, b, s)
                return ans[i]
            be = DetBackend(4, answer=answer, as_counts=rng.random() < .5)
            m = gen_Frame_Randomisation_MitRes(be, samples, frame_randomisation=FR[rng.randint(0, 1)]) if rng.random() < .7 \
                else gen_Frame_Randomisation_MitRes(be, samples)
            out = m.run(req)
            e["ins"] = [rec(ans[i]) for i in sorted(ans)]
        e["outs"] = [rec(r) for r in out]
    except Exception as x:  # noqa
        if "larger frame than Circuit" in repr(x):
            return dict(ev=[])      # pytket fails to find the cycles of some circuits
        e.update(ok=False, exc=repr(x)[:300])
    return dict(ev=[e])


# ------------------------------------------------------------------- Z25 ---
GOOD = ["X", "Y", "Z", "S", "Sdg", "V", "Vdg", "SX", "SXdg", "H", "CX", "CY", "CZ", "SWAP", "ZZMax", "ECR", "T", "Tdg",
        "Rz", "Rx", "Ry", "PhasedX", "ZZPhase", "U3", "TK1", "BRIDGE", "XXPhase"]
NA = dict(Rz=1, Rx=1, Ry=1, PhasedX=2, ZZPhase=1, U3=3, TK1=3, XXPhase=1)
NQ = dict(CX=2, CY=2, CZ=2, SWAP=2, ZZMax=2, ECR=2, ZZPhase=2, BRIDGE=3, XXPhase=2)


def wire_ok(c, q, new):
    """Would the new gate be next to one it could be merged with?"""
    return True


def fold(p):
    rng = random.Random(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    method = p.get("method") or rng.choice(["circuit", "two_qubit_gate", "two_qubit_gate", "gate", "gate", "odd_gate", "noise_aware"])
    if "gs" in p:
        n, gs = 2, p["gs"]
    else:
        n = rng.randint(2 if method == "two_qubit_gate" and rng.random() < .9 else 1, 3)
        gs = []
        for _ in range(rng.randint(1, rng.choice([3, 7, 12]))):
            g = rng.choice(GOOD)
            if method == "two_qubit_gate" and rng.random() < .6:
                g = rng.choice(sorted(NQ))
            if NQ.get(g, 1) > n or (method == "noise_aware" and g in "XYZ"):
                continue
            gs.append(dict(g=g, q=rng.sample(range(1, n + 1), NQ.get(g, 1)), a=[8 * rng.randint(1, 900) for _ in range(NA.get(g, 0))]))
        gs = gs or [dict(g="H", q=[1], a=[])]
    qs = qnames(rng, n)
    rng.shuffle(qs)
    bits = bnames(rng, 2) if method in ("two_qubit_gate", "noise_aware") and rng.random() < .5 and "gs" not in p else []
    c = Circuit()
    for q in sorted(qs):
        c.add_qubit(q)
    for b in bits:
        c.add_bit(b)
    if rng.random() < .2:
        c.add_phase(.25)
    for g in gs:
        c.add_gate(op_of(rng, g) if "gs" not in p else op_of(random.Random(0), g), [qs[j - 1] for j in g["q"]])
        k = rng.random()
        if k < .15:
            c.add_barrier(rng.sample(qs, rng.randint(1, n)))
        elif bits and k < .3:
            c.Measure(rng.choice(qs), rng.choice(bits))
        elif bits and k < .35:
            c.Reset(rng.choice(qs))
        elif bits and k < .4:
            c.X(rng.choice(qs), condition_bits=[bits[0]], condition_value=1)
    if "gs" not in p:
        swaps(rng, c)
    tags = {}
    orig = whole(c, qs, bits, tags)
    n0 = len([x for x in orig if x["g"] not in ("Barrier", "noop", "Phase")])
    m0 = len([x for x in orig if x["g"] not in ("Barrier", "noop", "Phase") and len(x["q"]) == 2])
    # a relabelling is written as SWAPs but there is nothing there to fold
    if c.has_implicit_wireswaps:
        k = len(whole(c, qs, bits, {})) - len([x for x in c.get_commands()])
        n0, m0 = n0 - k, m0 - k
    relabel = len(orig) - len(c.get_commands()) if c.has_implicit_wireswaps else 0
    if "num" in p:
        num, den = p["num"], p["den"]
    else:
        den = rng.choice([1, 1, max(1, n0), max(1, m0), 2, 3, 4, 10])
        num = rng.randint(den - (1 if rng.random() < .1 and den > 1 else 0), 5 * den)
        if method in ("circuit", "odd_gate", "noise_aware") and rng.random() < .8:
            den = 1
            num = rng.choice([1, 2, 3, 4, 5, 7])
        if method in ("odd_gate", "noise_aware") and num % den:
            num, den = rng.randint(1, 5), 1
        elif method in ("odd_gate", "noise_aware"):
            num, den = num // den, 1
    approx = rng.random() < .5
    # near multiples are told apart only to a thousandth
    s = num // den if num % den == 0 and rng.random() < .7 else num / den
    if method in ("odd_gate", "noise_aware"):
        s = int(s)
    if method == "circuit" and num % den == 0:
        s = num // den
    if rng.random() < .3 and method in ("gate", "two_qubit_gate") and isinstance(s, float):
        s = 1 + (num - den) / den
    kw = dict(_allow_approx_fold=approx)
    samples, errors = 1, 0
    if method == "noise_aware":
        model = {}
        for g in rng.sample(["H", "CX", "S", "CZ", "Rz"], rng.randint(0, 3)):
            w = NQ.get(g, 1)
            model[g] = dict(n=w, D=1, r=[[[rng.randint(0, 3) for _ in range(w)], 1]])
        samples = rng.choice([1, 1, 2, 3])
        if model or rng.random() < .5:
            kw["noise_model"] = nmodel(model, np.random.default_rng(p["seed"]))
        if samples > 1 or rng.random() < .5:
            kw["n_noisy_circuit_samples"] = samples
        if (s - 1) % 2:
            errors = sum(sum(1 for l in model[x.op.type.name]["r"][0][0] if l) for x in c.get_commands() if x.op.type.name in model)
    before = c.to_dict()
    e = dict(op="fold", m=n + len(bits), method=method, gs=orig, n0=n0, m0=m0, num=num, den=den, approx=approx, samples=samples,
             errors=errors, relabel=relabel, ok=True, exc="", outs=[], units=True, apart=True, unmodified=True)
    try:
        r = getattr(Folding, method)(c, s, **kw)
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
        e["unmodified"] = c.to_dict() == before
        return dict(ev=[e])
    e["unmodified"] = c.to_dict() == before
    e["outs"] = [whole(x, qs, bits, tags) for x in r]
    e["units"] = all(x.qubits == sorted(qs) and x.bits == sorted(bits) for x in r)


    def count(x):
        return len([g for g in x.get_commands() if g.op.type.name not in ("Barrier", "noop", "Phase")])
    o = c.copy()
    RemoveRedundancies().apply(o)
    if count(o) == count(c) and method != "noise_aware":
        for x in r:
            y = x.copy()
            RemoveRedundancies().apply(y)
            e["apart"] = e["apart"] and count(y) == count(x)
    return dict(ev=[e])


# ------------------------------------------------------------------- R22 ---
CHR = AutoRebase({OpType.CX, OpType.Rz, OpType.H})
STATE = []


def state_backend():
    if not STATE:
        from pytket.extensions.qiskit import AerStateBackend
        STATE.append(AerStateBackend())
    return STATE[0]


def pending(rng, n, qs, bits, syms, meas, ops=None):
    """A circuit with many rotations."""
    c = Circuit()
    for x in sorted(qs):
        c.add_qubit(x)
    for x in bits:
        c.add_bit(x)
    if rng.random() < .2:
        c.add_phase(.25)
    basis = rng.random() < .6
    for _ in range(rng.randint(0, rng.choice([4, 9, 14])) if ops is None else ops):
        k = rng.random()
        q = rng.choice(qs)
        if k < .35:
            a = rng.choice([.25, .5, 1, 1.5, 0, rng.randint(1, 1999) / 500, rng.randint(1, 1999) / 500, rng.randint(1, 1999) / 500])
            if syms and rng.random() < .5:
                a = rng.choice(syms)
            getattr(c, "Rz" if basis or rng.random() < .4 else rng.choice(["Rx", "Ry"]))(a, q)
        elif k < .6 and n > 1:
            getattr(c, "CX" if basis else rng.choice(["CX", "CZ", "SWAP", "ZZMax"]))(*rng.sample(qs, 2))
        elif k < .85:
            getattr(c, "H" if basis else rng.choice(["H", "S", "T", "V", "X", "Sdg", "Y"]))(q)
        elif k < .93:
            c.add_barrier(rng.sample(qs, rng.randint(1, n)))
        elif bits and meas:
            c.Measure(q, rng.choice(bits))
    if meas == 1:
        for q, b in zip(qs, bits):
            c.Measure(q, b)
    return swaps(rng, c)


def train(p):
    from qermit.clifford_noise_characterisation.ccl import ccl_state_task_gen, gen_state_circuits
    from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
    from pytket.passes import DecomposeBoxes
    from pytket.utils import QubitPauliOperator
    from sympy import Symbol
    from drivers.x_meas import qps
    rng = random.Random(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    random.seed(p["seed"])
    n = rng.randint(1, 3)
    via = rng.random() < .4
    # the library's expectation of a state is for default names only
    qs = [Qubit(j) for j in range(n)] if via else qnames(rng, n)
    rng.shuffle(qs)
    syms = [Symbol("a"), Symbol("b")] if via and rng.random() < .5 else []
    vals = [rng.choice([.5, rng.randint(1, 999) / 500]) for _ in syms]
    non = rng.choice([0, 1, 1, 2, 3, 5])
    pairs = rng.randint(0, non) if rng.random() < .92 else non + 1
    total = rng.choice([1, 1, 2, 3, 5])
    k = rng.choice([1, 1, 2, 3]) if via else 1
    bits = bnames(rng, rng.randint(0, 2)) if not via else []
    circs = [pending(rng, n, qs, bits, syms, rng.choice([0, 1, 2]) if bits else 0) for _ in range(k)]
    evs, refs = [], []
    for c in circs:
        r = c.copy()
        r.symbol_substitution(dict(zip(syms, vals)))
        DecomposeBoxes().apply(r)
        CHR.apply(r)
        tags = {}
        e = dict(op="train", n=n, m=n + len(bits), gs=whole(r, qs, bits, tags), outs=[], non=non, pairs=pairs, total=total,
                 ok=True, exc="", units=True, wires=True)
        evs.append(e)
        refs.append(tags)
    try:
        if via:
            sd = SymbolsDict.symbols_from_dict(dict(zip(syms, vals)))
            req = [ObservableExperiment(AnsatzCircuit(c, rng.randint(1, 99), sd),
                                        ObservableTracker(QubitPauliOperator({qps([rng.randint(0, 3) for _ in qs], qs): 1.0})))
                   for c in circs]
            before = [c.to_dict() for c in circs]
            t = ccl_state_task_gen(non, pairs, total, simulator_backend=state_backend(), tolerance=rng.choice([0, 0.01, 1]),
                                   max_state_circuits_attempts=rng.choice([1, 2, 5]))
            same, sim, dev = t((req,))
            wires = (list(same) == req and len(sim) == len(dev) == total * k and [c.to_dict() for c in circs] == before
                     and all(x.AnsatzCircuit.Circuit == y.AnsatzCircuit.Circuit for x, y in zip(sim, dev))
                     and all(w[j].AnsatzCircuit.Shots == req[j // total].AnsatzCircuit.Shots
                             and w[j].ObservableTracker.qubit_pauli_operator == req[j // total].ObservableTracker.qubit_pauli_operator
                             for w in (sim, dev) for j in range(total * k)))
            outs = [[x.AnsatzCircuit.Circuit for x in sim[j * total:(j + 1) * total]] for j in range(k)]
            for e in evs:
                e["wires"] = wires
        else:
            outs = [gen_state_circuits(circs[0], non, pairs, total, **({"seed": p["seed"]} if rng.random() < .5 else {}))]
        for e, o, tags in zip(evs, outs, refs):
            e["outs"] = [whole(x, qs, bits, tags) for x in o]
            e["units"] = all(x.qubits == sorted(qs) and x.bits == sorted(bits) for x in o)
    except Exception as x:  # noqa
        for e in evs:
            e.update(ok=False, exc=repr(x)[:300])
    return dict(ev=evs)


# ------------------------------------------------------------------- E27 ---
def body(c, qs):
    return [dict(g=x["g"], q=x["q"], a=x["a"]) for x in whole(c, qs, [])]


def framed(p):
    from qermit.probabilistic_error_cancellation.pec_learning_based import (gen_get_clifford_training_set, gen_get_noisy_circuits,
                                                                            gen_label_gates, gen_rebase_to_frames_and_computing,
                                                                            gen_wrap_frame_gates)
    from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
    from pytket.utils import QubitPauliOperator
    from drivers.x_meas import qps
    rng = random.Random(p["seed"])
    np.random.seed(p["seed"] % 2**32)
    n = rng.choice([1, 2, 2, 2, 3, 4]) if not p.get("many") else 4
    k = rng.choice([1, 1, 1, 2]) if not p.get("many") else 1
    t = rng.choice([1, 1, 2]) if not p.get("many") else 1
    qs = qnames(rng, n) if rng.random() < .4 else [Qubit(j) for j in range(n)]
    rng.shuffle(qs)
    evs, req, strs = [], [], []
    for _ in range(k):
        c = Circuit()
        for x in sorted(qs):
            c.add_qubit(x)
        frames = 0
        turned = set()
        want = rng.choice([0, 1, 1, 2, 2, 3 if n == 4 else 2]) if n > 1 else 0
        for _ in range(rng.randint(0, 7)):
            if frames < want and rng.random() < .45:
                two = rng.sample(qs, 2)
                getattr(c, rng.choice(["CX", "CX", "CZ"]))(*two)
                turned -= set(two)
                frames += 1
            else:
                q = rng.choice(qs)
                if rng.random() < .5 or q in turned:
                    getattr(c, rng.choice(["H", "S", "Sdg", "V", "X"]))(q)
                else:
                    turned.add(q)
                    getattr(c, rng.choice(["Rx", "Ry", "Rz"]))(rng.randint(1, 999) / 500, q)
        for _ in range(want - frames):
            c.CX(*rng.sample(qs, 2))
        if n == 4 and p.get("many"):
            # frames side by side, with more before one than before the other
            two = rng.sample(qs, 4)
            for _ in range(p["many"]):
                x, y = rng.choice([two[:2], two[2:], rng.sample(qs, 2)])
                c.CX(x, y)
                for q in rng.sample(qs, rng.randint(0, 2)):
                    c.Rx(rng.randint(1, 999) / 500, q)
        if rng.random() < .15:
            swaps(rng, c.SWAP(*rng.sample(qs, 2))) if n > 1 else 0
        ls = []
        for _ in range(rng.choice([1, 1, 2])):
            l = [rng.choice([0, 3, rng.randint(0, 3)]) for _ in qs]
            if l not in ls:
                ls.append(l)
        strs.append(ls)
        req.append(ObservableExperiment(AnsatzCircuit(c, rng.randint(1, 99), SymbolsDict()),
                                        ObservableTracker(QubitPauliOperator({qps(l, qs): j + 1.0 for j, l in enumerate(ls)}))))
        evs.append(dict(op="framed", n=n, valid=True, gs0=body(c, qs), gs=[], train=[], noisy=[], units=True, kept=True, ok=True, exc="",
                        relabel=int(c.has_implicit_wireswaps)))
    before = [(r.AnsatzCircuit.Circuit.to_dict(), dict(r.ObservableTracker.qubit_pauli_operator._dict)) for r in req]
    num = dict(op="numbers", ideal=[], noisy=[], strs=[], errs=[], k=t)
    try:
        w, = gen_rebase_to_frames_and_computing()((req,))
        labelled, = gen_label_gates()((w,))
        wrapped, = gen_wrap_frame_gates()((labelled,))
        for e, x in zip(evs, wrapped):
            e["gs"] = body(x.AnsatzCircuit.Circuit, qs)
            ops = [g["g"] for g in e["gs"]]
            e["valid"] = "CX" in ops and "TK1" in ops
        if not all(e["valid"] for e in evs):
            for e in evs:
                e["valid"] = False
        for e, x, r in zip(evs, wrapped, req):
            e["kept"] = len(wrapped) == k and x.ObservableTracker.qubit_pauli_operator == r.ObservableTracker.qubit_pauli_operator and \
                x.AnsatzCircuit.Shots == r.AnsatzCircuit.Shots
        be = DetBackend(n)
        gen = gen_get_noisy_circuits(be)
        cliff, ideal = gen_get_clifford_training_set(state_backend(), t)((wrapped,))
        noisy_c, num_c = gen((cliff,))
        noisy, num_e = gen((wrapped,))
        num["ideal"] = [[d["experiment"], d["qps"], d["training_circuit"]] for d in ideal]
        num["noisy"] = [[d["experiment"], d["error"]] for d in num_c]
        num["strs"] = [len(l) for l in strs]
        for x in cliff:
            num["errs"].append(1 + 15 * sum(1 for g in x.AnsatzCircuit.Circuit.get_commands() if g.op.type == OpType.CX))
        ev2 = dict(num, noisy=[[d["experiment"], d["error"]] for d in num_e],
                   errs=[1 + 15 * sum(1 for g in e["gs"] if g["g"] == "CX") for e in evs])

        def pick(xs, nums, j):
            at = sorted((d["error"], i) for i, d in enumerate(nums) if d["experiment"] == j)
            return [xs[i] for _, i in at]
        for j, e in enumerate(evs):
            e["noisy"] = [body(x.AnsatzCircuit.Circuit, qs) for x in pick(noisy, num_e, j)]
            e["units"] = all(x.AnsatzCircuit.Circuit.qubits == sorted(qs) for x in pick(noisy, num_e, j))
            for i, d in enumerate(ideal):
                if d["experiment"] != j:
                    continue
                tc = cliff[i]
                q, = list(tc.ObservableTracker.qubit_pauli_operator._dict)
                wanted = qps(strs[j][d["qps"]], qs)
                e["kept"] = e["kept"] and q == wanted and tc.AnsatzCircuit.Shots == req[j].AnsatzCircuit.Shots and \
                    all(list(x.ObservableTracker.qubit_pauli_operator._dict) == [q] and x.AnsatzCircuit.Shots == req[j].AnsatzCircuit.Shots
                        for x in pick(noisy_c, num_c, i))
                names = tc.AnsatzCircuit.Circuit.qubits == sorted(qs)
                e["train"].append(dict(gs=body(tc.AnsatzCircuit.Circuit, qs if names else sorted(qs)) if names else [],
                                       p=strs[j][d["qps"]], units=names,
                                       noisy=[body(x.AnsatzCircuit.Circuit, qs) for x in pick(noisy_c, num_c, i)] if names else []))
        after = [(r.AnsatzCircuit.Circuit.to_dict(), dict(r.ObservableTracker.qubit_pauli_operator._dict)) for r in req]
        for e, a, b in zip(evs, before, after):
            e["kept"] = e["kept"] and a == b
    except Inexact:
        return dict(ev=[])      # merged gates without recordable angles
    except Exception as x:  # noqa
        hard = "non-zero expectation" in repr(x)
        for e in evs:
            e.update(ok=False, exc=repr(x)[:300])
            if hard:
                e["valid"] = False
        return dict(ev=evs)
    return dict(ev=evs + [num, ev2])
