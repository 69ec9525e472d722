import random, json
from collections import Counter
import numpy as np
from pytket import Bit, Circuit, Qubit, OpType
from pytket.backends.backendresult import BackendResult
from pytket.partition import GraphColourMethod, PauliPartitionStrat
from pytket.pauli import Pauli, QubitPauliString
from pytket.transform import CXConfigType
from pytket.utils import QubitPauliOperator
from pytket.utils.outcomearray import OutcomeArray
from sympy import Symbol
from qermit import (AnsatzCircuit, CircuitShots, MeasurementCircuit, MitEx, MitRes, ObservableExperiment,
                    ObservableTracker, SymbolsDict)
from qermit.taskgraph.mitex import filter_observable_tracker_task_gen
from qermit.taskgraph.measurement_reduction import gen_MeasurementReduction_MitEx, measurement_reduction_task_gen
from drivers.circ import UNIT, QT, gates, letters, unitary_part, units
from drivers.mocks import DetBackend
from drivers.x_tracker import num

PS = [Pauli.I, Pauli.X, Pauli.Y, Pauli.Z]


def qnames(rng, n):
    reg = rng.choice(["q", "q", "node", "a"])
    off = rng.choice([0, 0, 1, 3])
    return [Qubit(reg, k + off) for k in range(n)]


def qps(ls, qs, explicit=False):
    return QubitPauliString({q: PS[l] for q, l in zip(qs, ls) if l or explicit})


def add(c, qs, g):
    ang = [a / UNIT for a in g["a"]]
    getattr(c, g["g"])(*ang, *[qs[j - 1] for j in g["q"]])


def random_ansatz(rng, n, qs, syms=None, clifford=False, depth=6):
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for _ in range(rng.randint(0, depth)):
        k = rng.randint(0, 9)
        q = rng.choice(qs)
        if k < 4 and n > 1:
            getattr(c, rng.choice(["CX", "CZ", "CX"]))(*rng.sample(qs, 2))
        elif k < 7 or clifford:
            getattr(c, rng.choice(["H", "S", "V", "X", "Sdg"]))(q)
        elif syms and k == 9:
            getattr(c, rng.choice(["Rz", "Ry"]))(rng.choice(syms), q)
        else:
            getattr(c, rng.choice(["Rz", "Rx", "Ry"]))(rng.randint(1, 499) / 500, q)
    return c


def strings(rng, n, k):
    out = []
    for _ in range(k):
        l = [rng.choice([0, 1, 2, 3]) for _ in range(n)]
        if l not in out:
            out.append(l)
    return out


# ------------------------------------------------------ measurement circuits
def reg(p):
    rng = random.Random(p["seed"])
    n = p["n"]
    qs = qnames(rng, n)
    sym = [Symbol("a"), Symbol("b")]
    vals = {sym[0]: rng.randint(1, 499) / 500, sym[1]: rng.randint(1, 499) / 500}
    if "gs" in p:
        c = Circuit()
        for q in qs:
            c.add_qubit(q)
        for g in p["gs"]:
            add(c, qs, g)
        strs = [list(s) for s in p["strs"]]
    else:
        c = random_ansatz(rng, n, qs, sym if rng.random() < .5 else None)
        strs = strings(rng, n, p["ns"])
    used = {s: v for s, v in vals.items() if s in c.free_symbols()}
    sd = SymbolsDict.symbols_from_dict(dict(used)) if used or rng.random() < .5 else SymbolsDict()
    explicit = rng.random() < .3
    keys = [qps(l, qs, explicit) for l in strs]
    op = QubitPauliOperator({k: rng.randint(1, 3) for k in keys})
    given, circs, ids = [], [], {}
    t = ObservableTracker(op)
    for gi in range(rng.choice([0, 0, 1, 2])):
        d = c.copy()
        for b in range(n):
            d.add_bit(Bit(b))
        j = rng.randrange(len(strs))
        mc = MeasurementCircuit(d, sd)
        bits = [Bit(b) for b in sorted(rng.sample(range(n), rng.randint(0, n)))]
        inv = rng.random() < .5
        t.add_measurement_circuit(mc, [(keys[j], bits, inv)])
        ids[id(mc)] = gi
        given.append(dict(s=j + 1, id=gi, bits=[str(b) for b in bits], inv=inv))
    before = (c.to_dict(), dict(op._dict), dict(sd._symbolic_map))
    cs, ss = c.copy(), None
    tr, ok, exc = t, True, ""
    try:
        exps = [ObservableExperiment(AnsatzCircuit(c, 10, sd), t)]
        if p["how"] in ("reduce", "both"):
            task = measurement_reduction_task_gen(rng.choice([PauliPartitionStrat.NonConflictingSets, PauliPartitionStrat.CommutingSets]),
                                                  rng.choice([GraphColourMethod.Lazy, GraphColourMethod.LargestFirst, GraphColourMethod.Exhaustive]),
                                                  rng.choice([CXConfigType.Snake, CXConfigType.Star, CXConfigType.Tree]))
            exps = task([exps])[0]
            tr = exps[0].ObservableTracker
        if p["how"] in ("default", "both"):
            out = filter_observable_tracker_task_gen()([exps])
            tr = out[1][0]
    except Exception as e:  # noqa
        ok, exc = False, repr(e)[:300]
    symok = True
    mcs = tr.measurement_circuits
    seen = {}
    for k, m in enumerate(mcs):
        i = ids.get(id(m), 100 + k)
        seen[k] = i
        if m.circuit.free_symbols() != c.free_symbols() or {s: m._symbols._symbolic_map.get(s) for s in used} != used:
            symok = False
        d = m.get_parametric_circuit()
        circs.append(dict(id=i, gates=gates(d, qs)))
    regs = []
    for j, k in enumerate(keys):
        for ix, bits, inv in tr._qps_to_indices[k]:
            regs.append(dict(s=j + 1, id=seen[ix], bits=[str(b) for b in bits], inv=bool(inv)))
    if used:
        cs.symbol_substitution(used)
    return dict(ev=[dict(op="register", n=n, ansatz=unitary_part(cs, qs), strs=strs, given=given, circs=circs, regs=regs, ok=ok, exc=exc,
                         symbols=symok, unmodified=(c.to_dict(), dict(op._dict), dict(sd._symbolic_map)) == before)])


# ------------------------------------------------------------------ runs ---
def run(p):
    rng = random.Random(p["seed"])
    subs = []
    state = dict(tag2n={})

    def answer(c, s, k):
        gs = gates(c)
        key = json.dumps([gs, s]) if p["dup"] else None
        r = random.Random(key + str(p["seed"])) if p["dup"] else rng
        bits = list(c.bits)
        rows = Counter(tuple(r.randint(0, 1) for _ in bits) for _ in range(s))
        order = list(range(len(bits)))
        r.shuffle(order)
        tags = [g["a"][0] for g in gs if g["g"] == "Rz" and g["a"][0] in state["given"]]
        subs.append(dict(n=c.n_qubits, gates=gs, shots=s, id=tags[0] if tags else -1,
                         res=dict(bits=[str(b) for b in bits], c=[[list(k_), v] for k_, v in sorted(rows.items())])))
        if not bits:
            return BackendResult(shots=OutcomeArray.from_readouts(np.zeros((s, 0), dtype=int)), c_bits=[])
        return BackendResult(counts=Counter({OutcomeArray.from_readouts([[x[j] for j in order]]): v for x, v in rows.items()}),
                             c_bits=[bits[j] for j in order])
    be = DetBackend(6, answer=answer)
    if p["kind"] == "reduce":
        m = gen_MeasurementReduction_MitEx(be)
    elif p["kind"] == "mitres":
        m = MitEx(be, mitres=MitRes(be))
    else:
        m = MitEx(be)
    red = p["kind"] == "reduce"
    tag = [0]
    ev = []

    shared = {}

    def experiment(missing):
        n = rng.randint(1, 3)
        qs = qnames(rng, n)
        syms = [Symbol("a"), Symbol("b")]
        c = Circuit()
        for q in qs:
            c.add_qubit(q)
        tag[0] += 1
        c.Rz((8 * tag[0] + 2) / UNIT, qs[0])
        if rng.random() < .8:
            c.H(qs[0])
        c.append(random_ansatz(rng, n, qs, syms if rng.random() < .4 else None))
        used = sorted(c.free_symbols(), key=str)
        vals = {s: rng.randint(1, 499) / 500 for s in used}
        sd = SymbolsDict.symbols_from_dict(dict(vals))
        key = (n, str(qs))
        if p["share"] and key in shared and not missing:
            t, strs, keys, co = shared[key]
        else:
            strs = strings(rng, n, rng.randint(1, 4))
            keys = [qps(l, qs) for l in strs]
            co = [rng.choice([-3, -2, -1, 1, 2, 3, 0]) for _ in strs]
            t = ObservableTracker(QubitPauliOperator(dict(zip(keys, co))))
            if missing:
                t.extend_operator(QubitPauliOperator({QubitPauliString({Qubit("zz", 9): Pauli.Z}): 1}))
            if not missing:
                shared[key] = (t, strs, keys, co)
        given, ngiven = [], 0
        if not p["share"] and rng.random() < .3:
            for _ in range(rng.randint(1, 2)):
                j = rng.randrange(len(strs))
                d = c.copy()
                tag[0] += 1
                d.Rz((8 * tag[0] + 2) / UNIT, qs[0])
                state["given"].add(8 * tag[0] + 2)
                for b in range(n):
                    d.add_bit(Bit(b))
                    d.Measure(qs[b], Bit(b))
                bits = [Bit(b) for b in sorted(rng.sample(range(n), rng.randint(1, n)))]
                inv = rng.random() < .5
                t.add_measurement_circuit(MeasurementCircuit(d, sd), [(keys[j], bits, inv)])
                ngiven += 1
                given.append(dict(s=j + 1, id=8 * tag[0] + 2, bits=[str(b) for b in bits], inv=inv))
        shots = rng.choice([1, 2, 4, 8, 16])
        return dict(c=c, sd=sd, vals=vals, t=t, strs=strs, keys=keys, co=co, n=n, qs=qs, shots=shots, given=given, ngiven=ngiven,
                    missing=missing)

    state["given"] = set()
    for r in range(p["runs"]):
        miss = p["fail"] and r == 0
        exps = [experiment(miss and k == p["ne"] - 1) for k in range(p["ne"])]
        if p["dup"] and len(exps) > 1 and not miss:
            # the same circuit again with another operator
            e = dict(exps[0])
            strs = strings(rng, e["n"], 2)
            keys = [qps(l, e["qs"]) for l in strs]
            e.update(strs=strs, keys=keys, co=[1, 2][: len(strs)], given=[], ngiven=0,
                     t=ObservableTracker(QubitPauliOperator(dict(zip(keys, [1, 2])))))
            exps.append(e)
        before = [e["c"].to_dict() for e in exps]
        bvals = [dict(e["sd"]._symbolic_map) for e in exps]
        subs.clear()
        ok, exc, outs = True, "", []
        basic = rng.random() < .25 and all(not e["vals"] and not e["given"] and not e["missing"] for e in exps)
        try:
            if basic:
                res = m.run_basic([(CircuitShots(e["c"], e["shots"]), QubitPauliOperator(dict(zip(e["keys"], e["co"])))) for e in exps])
            else:
                wire = [ObservableExperiment(AnsatzCircuit(e["c"], e["shots"], e["sd"]), e["t"]) for e in exps]
                if rng.random() < .3:
                    wire = [(tuple(w[0]), w[1]) for w in wire]
                res = m.run(wire)
            for e, q in zip(exps, res):
                outs.append([[letters(k, e["qs"]), num(v, e["shots"])] for k, v in q._dict.items()])
            if len(res) > len(exps):
                outs += [[]] * (len(res) - len(exps))
        except Exception as x:  # noqa
            ok, exc = False, repr(x)[:300]
        rec = []
        for e in exps:
            d = e["c"].copy()
            if e["vals"]:
                d.symbol_substitution(e["vals"])
            rec.append(dict(n=e["n"], ansatz=unitary_part(d, e["qs"]), shots=e["shots"], strs=[[l, k] for l, k in zip(e["strs"], e["co"])],
                            given=[] if basic else e["given"], ngiven=e["ngiven"], missing=e["missing"]))
        ev.append(dict(op="run", exps=rec, subs=[dict(s) for s in subs], outs=outs, ok=ok, exc=exc, reduced=red, dup=p["dup"],
                       unmodified=before == [e["c"].to_dict() for e in exps] and bvals == [dict(e["sd"]._symbolic_map) for e in exps]))
    return dict(ev=ev)
