import random
from collections import Counter
import networkx as nx
import numpy as np
from pytket import Bit, Circuit, OpType, Qubit
from pytket.circuit import CircBox
from pytket.passes import DecomposeBoxes
from pytket.pauli import QubitPauliString, QubitPauliTensor
from qermit.coherent_pauli_checks import (DeterministicXPauliSampler, DeterministicZPauliSampler, OptimalPauliSampler,
                                          RandomPauliSampler)
from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford
from qermit.coherent_pauli_checks.coherent_pauli_checks_mitres import gen_check_circuit_task, gen_find_cliffords_task
from qermit.coherent_pauli_checks.monochromatic_convex_subdag import get_monochromatic_convex_subdag
from qermit.coherent_pauli_checks.pauli_sampler import PauliSampler
from qermit.noise_model.noise_model import LogicalErrorDistribution
from qermit.noise_model.qermit_pauli import QermitPauli
from qermit import CircuitShots
from drivers.circ import UNIT, perm_swaps
from drivers.x_meas import PS, qnames
from drivers.x_noise import op_of, rgate


def dag(p):
    rng = random.Random(p["seed"])
    if "n" in p:
        n, es, col = p["n"], [tuple(e) for e in p["es"]], list(p["col"])
    else:
        n = rng.randint(5, 9)
        d = rng.choice([.15, .3, .5])
        es = [(a, b) for a in range(1, n + 1) for b in range(a + 1, n + 1) if rng.random() < d]
        col = [x for x in range(1, n + 1) if rng.random() < rng.choice([.4, .7, .9])]
    name = (lambda x: x - 1) if rng.random() < .5 else (lambda x: "v%d" % (x * 7 % 11))
    g = nx.DiGraph()
    order = list(range(1, n + 1))
    rng.shuffle(order)
    g.add_nodes_from(name(x) for x in order)
    ee = es[:]
    rng.shuffle(ee)
    g.add_edges_from((name(a), name(b)) for a, b in ee)
    cc = col[:]
    if rng.random() < .5:
        rng.shuffle(cc)
    e = dict(op="dag", n=n, es=sorted(list(x) for x in es), col=col, ok=True, ps=[])
    try:
        r = get_monochromatic_convex_subdag(g, [name(x) for x in cc])
        back = {name(x): x for x in range(1, n + 1)}
        e["ps"] = [sorted(back[k] for k, v in r.items() if v == s) for s in sorted(set(r.values()))]
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    return dict(ev=[e])


TAGS = ("Measure", "Reset", "Conditional")


def record(c, qs, tags=None):
    """Commands as they come; measurements, resets and conditional gates carry
    a number t of their own (odd, the same for the same operation on the same
    qubits and bits)."""
    qi = {q: j + 1 for j, q in enumerate(qs)}
    tags = {} if tags is None else tags
    out = []
    for cmd in c.get_commands():
        op = cmd.op
        name = op.type.name
        g = dict(q=[qi[q] for q in cmd.qubits], a=[], b=[str(b) for b in cmd.args if isinstance(b, Bit)])
        if name == "Conditional":
            name = f"IF {op.value} {op.op}"
        elif name == "CircBox":
            name = "BOX %s %s" % (op.get_circuit().name, record(op.get_circuit(), op.get_circuit().qubits))
        elif name not in ("Barrier", "Measure", "Reset", "SetBits", "CopyBits"):
            g["a"] = [int(round(float(v) * UNIT)) % (2 * UNIT) for v in op.params]
        g["g"] = name
        if (g["b"] or name in ("Reset",)) and name != "Barrier":
            g["t"] = tags.setdefault((name, tuple(g["q"]), tuple(g["b"])), 2 * len(tags) + 1)
        out.append(g)
    return out + perm_swaps(c, qi)


def circuit(rng, n, qs, bits, pure=False, depth=14, wild=.5):
    c = Circuit()
    for q in sorted(qs):
        c.add_qubit(q)
    for b in bits:
        c.add_bit(b)
    if not pure and rng.random() < .3:
        c.add_phase(.25)
    for _ in range(rng.randint(1, depth)):
        k = rng.random()
        if k < .75:
            g = rgate(rng, n, (not pure) and rng.random() < wild)
            if pure and g["g"] in ("Rz", "Rx", "PhasedX", "ZZPhase"):
                continue
            kw = dict(opgroup="og") if rng.random() < .05 and g["g"] in ("X", "H", "CX") else {}
            args = [qs[j - 1] for j in g["q"]]
            # a group name is used for gates of one kind only
            if kw and g["g"] != "H":
                kw = {}
            c.add_gate(op_of(rng, g), args, **kw)
        elif k < .82:
            c.add_barrier(rng.sample(qs, rng.randint(1, n)) + ([] if pure else rng.sample(bits, rng.randint(0, min(1, len(bits))))))
        elif pure:
            continue
        elif k < .9:
            c.Measure(rng.choice(qs), rng.choice(bits))
        elif k < .97:
            cond = rng.sample(bits, rng.randint(1, min(2, len(bits))))
            getattr(c, rng.choice("XZHS"))(rng.choice(qs), condition_bits=cond, condition_value=rng.randint(0, 2 ** len(cond) - 1))
        else:
            c.Reset(rng.choice(qs))
    if rng.random() < .3:
        c.replace_SWAPs()
    return c


def box(p):
    rng = random.Random(p["seed"])
    n = rng.randint(1, 4)
    qs = sorted(qnames(rng, n)) if rng.random() < .7 else [Qubit("a", 2 * j + 1) if j % 2 else Qubit("b", j) for j in range(n)]
    qs = sorted(qs)
    bits = [Bit("c", j) for j in range(rng.randint(1, n))] if rng.random() < .5 else [Bit("k", 2 * j + 1) for j in range(n)]
    c = circuit(rng, n, qs, bits, wild=rng.choice([.1, .3, .6]))
    e = dict(op="box", n=n, gs=record(c, qs), ok=True, open=[], boxes=[], rest=[], units=True)
    d = c.copy()
    try:
        if rng.random() < .5:
            BoxClifford().apply(d)
        else:
            (cs,) = gen_find_cliffords_task()(([CircuitShots(Circuit=d, Shots=5)],))
            e["units"] = d == c and cs[0].Shots == 5
            d = cs[0].Circuit
        e["units"] = e["units"] and d.qubits == c.qubits and d.bits == c.bits and abs(float(d.phase) - float(c.phase)) < 1e-9
        cmds = d.get_commands()
        e["boxes"] = [record(x.op.get_circuit(), x.op.get_circuit().qubits) for x in cmds if x.op.type == OpType.CircBox]
        e["rest"] = [r for r, x in zip(record(d, qs), cmds) if x.op.type != OpType.CircBox]
        DecomposeBoxes().apply(d)
        e["open"] = record(d, qs)
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    return dict(ev=[e])


class Given(PauliSampler):
    def __init__(self, rng, k):
        self.rng, self.k = rng, k

    def sample(self, circ):
        out = []
        while len(out) < self.k:
            l = [self.rng.randint(0, 3) for _ in circ.qubits]
            if any(l) or self.rng.random() < .05:
                out.append(QermitPauli(QubitPauliTensor(string=QubitPauliString({q: PS[x] for q, x in zip(circ.qubits, l)}),
                                                        coeff=self.rng.choice([1, 1, -1, 1j, -1j]))))
        return out


class FakeNoise:
    def __init__(self, rng):
        self.rng, self.log = rng, []

    def get_effective_pre_error_distribution(self, cliff_circ, **kw):
        w = cliff_circ.n_qubits
        errs = {}
        for _ in range(self.rng.randint(1, 5)):
            l = tuple(self.rng.randint(0, 3) for _ in range(w))
            if any(l):
                errs[l] = self.rng.randint(1, 9)
        tot = sum(errs.values()) + self.rng.randint(0, 5)
        self.log.append(([[list(k), v] for k, v in errs.items()], list(cliff_circ.qubits)))
        return LogicalErrorDistribution(
            Counter({QermitPauli(QubitPauliTensor(string=QubitPauliString({q: PS[x] for q, x in zip(cliff_circ.qubits, k)}), coeff=1)): v
                     for k, v in errs.items()}), total=max(tot, 1))


def spy(s):
    """Watch what a sampler is asked and what it answers."""
    log = []
    orig = s.sample

    def sample(circ):
        r = orig(circ=circ)
        log.append((list(circ.qubits), [(int_phase(x), dict(x.qubit_pauli_tensor.string.map)) for x in r]))
        return r
    s.sample = sample
    return log


def int_phase(x):
    return {1: 0, 1j: 1, -1: 2, -1j: 3}[complex(x.qubit_pauli_tensor.coeff)]


def checks(p):
    rng = random.Random(p["seed"])
    pure = p["pure"]
    n = rng.randint(1, 4)
    qs = sorted(qnames(rng, n)) if rng.random() < .7 else [Qubit("b", 2 * j + 1) if j % 2 else Qubit("d", j) for j in range(n)]
    qs = sorted(qs)
    bits = [Bit("c", j) for j in range(rng.randint(1, n))] if rng.random() < .5 else [Bit("k", 2 * j + 1) for j in range(n)]
    c = circuit(rng, n, qs, bits, pure, depth=8, wild=rng.choice([.1, .3]))
    if pure and rng.random() < .5:
        c.Measure(rng.choice(qs), bits[0])
    if rng.random() < .6:
        BoxClifford().apply(c)
    else:
        # boxes put in by hand, on qubits in any order
        d = Circuit()
        for q in qs:
            d.add_qubit(q)
        for b in bits:
            d.add_bit(b)
        for _ in range(rng.randint(1, 3)):
            w = rng.randint(1, n)
            sub = Circuit(w, name=rng.choice(["Clifford Subcircuit", "Clifford Subcircuit", "Clifford Subcircuit 2"]))
            for _ in range(rng.randint(0, 5)):
                g = rgate(rng, w, False)
                sub.add_gate(op_of(rng, g), [j - 1 for j in g["q"]])
                if rng.random() < .1:
                    sub.add_barrier(list(range(w)))
            if rng.random() < .2:
                sub.replace_SWAPs()
            d.add_circbox(CircBox(sub), rng.sample(qs, w))
            if rng.random() < .6:
                d.append(circuit(rng, n, qs, bits, pure, depth=4))
        c = d
    kind = rng.choice(["given", "given", "random", "z", "x", "optimal"])
    k = rng.randint(1, 2) if kind != "optimal" else 1
    if kind == "given":
        s = Given(rng, k)
    elif kind == "random":
        s = RandomPauliSampler(k, np.random.default_rng(p["seed"]))
    elif kind == "optimal":
        nm = FakeNoise(rng)
        k = rng.randint(1, 2) if all(len(x.qubits) <= 2 for x in c.get_commands() if x.op.type == OpType.CircBox) else 1
        s = OptimalPauliSampler(nm, k)
    else:
        s = DeterministicZPauliSampler() if kind == "z" else DeterministicXPauliSampler()
    # one qubit has three checks only
    log = spy(s)
    tags = {}
    name0 = lambda cmd: cmd.op.type == OpType.CircBox
    c0 = c.copy()
    o = c.copy()
    DecomposeBoxes().apply(o)
    e = dict(op="checks", n=n, k=0, kind=kind, gs=record(o, qs, tags), ok=True, out=[], post=[], newbits=[], kept0=record(c, qs, tags), kept=[], units=True,
             wanted=0)
    try:
        if rng.random() < .5:
            r, post = s.add_pauli_checks_to_circbox(c)
            boxed = r
            op_ = r.copy()
            DecomposeBoxes().apply(op_)
        else:
            (cs, mgr) = gen_check_circuit_task(s)(([CircuitShots(Circuit=c, Shots=7)],))
            op_ = cs[0].Circuit
            post = mgr[0].postselect_cbits
            e["units"] = cs[0].Shots == 7 and mgr[0].compute_cbits == c.bits
            boxed = None
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
        return dict(ev=[e])
    new = [q for q in op_.qubits if q not in qs]
    # ancillas numbered after the circuit's own qubits
    e["k"] = len(new)
    e["wanted"] = sum(len(x[1]) for x in log)
    allq = qs + new
    e["out"] = record(op_, allq, tags)
    e["newbits"] = sorted(str(b) for b in op_.bits if b not in bits)
    e["post"] = sorted(str(b) for b in post)
    e["units"] = e["units"] and set(qs) <= set(op_.qubits) and set(bits) <= set(op_.bits) and c == c0
    if boxed is None:
        e["kept0"] = e["kept"] = []
    else:
        e["kept"] = record(boxed, allq, tags)
        # controls of checks touch an ancilla; anything else must be the circuit's own
    ev = [e]
    if pure and boxed is not None:
        key = lambda x, seen: (x.op.type.name, tuple(x.args), str(record(x.op.get_circuit(), x.op.get_circuit().qubits)))
        def spans(circ):
            pos, out, cnt = 0, {}, Counter()
            for x in circ.get_commands():
                if x.op.type == OpType.CircBox:
                    kk = key(x, None)
                    cnt[kk] += 1
                    out[(kk, cnt[kk])] = pos + 1
                    pos += len(record(x.op.get_circuit(), x.op.get_circuit().qubits))
                else:
                    pos += 1
            return out

        def opened(circ):
            out = []
            for x, g in zip(circ.get_commands(), record(circ, allq)):
                if x.op.type == OpType.CircBox:
                    b = x.op.get_circuit()
                    out += record(b.copy(), b.qubits) and [dict(y, q=[g["q"][j - 1] for j in y["q"]]) for y in record(b, b.qubits)]
                else:
                    out.append(g)
            return out + perm_swaps(circ, {q: j + 1 for j, q in enumerate(allq)})
        s0, s1 = spans(c), spans(boxed)
        if set(s0) == set(s1):
            ks = list(s0)
            named = [k_ for k_ in ks]
            ps = []
            for b, (qsub, cl) in enumerate(log, 1):
                for ph, m in cl:
                    l = [0] * n
                    for q, x in m.items():
                        l[qs.index(q)] = int(x)
                    ps.append(dict(b=b, p=dict(ph=ph, l=l)))
            strip = lambda gs: [g for g in gs if g["g"] != "Measure"] and [dict(g) if g["g"] != "Measure" else dict(g="Barrier", q=g["q"], a=[], b=[]) for g in gs]
            d = dict(op="detect", n=n, k=len(new), gs=strip(opened(c)), out=strip(opened(boxed)), lo0=[s0[k_] for k_ in ks], lo1=[s1[k_] for k_ in ks],
                     bq=[[qs.index(q) + 1 for q in k_[0][1]] for k_ in named], ps=ps)
            if kind == "optimal":
                d["opt"] = []
                for (errs, qsub), (_, cl) in zip(nm.log, log):
                    if len(qsub) <= (2 if k > 1 else 4):
                        d["opt"].append(dict(w=len(qsub), errs=errs, cs=[[int(m.get(q, 0)) for q in qsub] for _, m in cl]))
            ev.append(d)
    return dict(ev=ev)
