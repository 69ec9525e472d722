import random
from collections import Counter
import numpy as np
from pytket import Bit, Circuit, Qubit
from pytket.backends.backendresult import BackendResult
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from pytket.utils.outcomearray import OutcomeArray
from qermit import MeasurementCircuit, ObservableTracker

S = {"I": QubitPauliString(), "Z0": QubitPauliString({Qubit(0): Pauli.Z}),
     "X0Z1": QubitPauliString({Qubit(0): Pauli.X, Qubit(1): Pauli.Z}), "Y1": QubitPauliString({Qubit(1): Pauli.Y})}
NAME = {v: k for k, v in S.items()}
N, NB = 16, 3


def num(x, scale=1):
    v = complex(x) * scale
    assert abs(v.imag) < 1e-9, x
    r = round(v.real)
    return r if abs(v.real - r) < 1e-6 else 10**6 + int(abs(v.real) * 1000)


def coeffs(o):
    return [[NAME[k], num(v)] for k, v in o._dict.items()]


def dump(trs, ops):
    ts = []
    for n, t in trs.items():
        strs = [NAME[k] for k in t.qubit_pauli_operator._dict]
        of = []
        for s in strs:
            of.append([s, [int(m.circuit.name) for m in t.get_measurement_circuits(S[s])]])
        ts.append(dict(n=n, co=coeffs(t.qubit_pauli_operator), empty=[NAME[s] for s in t.get_empty_strings()],
                       checked=[s for s in S if t.check_string(S[s])],
                       cs=[int(m.circuit.name) for m in t.measurement_circuits], of=of))
    return dict(trackers=ts, operators=[dict(n=n, co=coeffs(o)) for n, o in ops.items()])


def execute(p):
    rng = random.Random(p["seed"])
    trs, ops, ev = {}, {}, []

    def put(e):
        e.update(dump(trs, ops))
        e.setdefault("refused", False)
        ev.append(e)

    for n in ("o1", "o2"):
        ops[n] = QubitPauliOperator({})
        put(dict(op="newop", n=n))

    def expect(n):
        t = trs[n]
        k = len(t.measurement_circuits)
        if k and rng.random() < .15:
            k -= 1
        res, rs = [], []
        for _ in range(k):
            rows = Counter(tuple(rng.randint(0, 1) for _ in range(NB)) for _ in range(N))
            order = [0, 1, 2]
            rng.shuffle(order)
            res.append([[list(r), c] for r, c in sorted(rows.items())])
            rs.append(BackendResult(counts=Counter({OutcomeArray.from_readouts([[r[j] for j in order]]): c for r, c in rows.items()}),
                                    c_bits=[Bit(j) for j in order]))
        try:
            q = t.get_expectations(rs)
            vals = [[NAME[s], num(v, N)] for s, v in q._dict.items()]
            ref, exc = False, ""
        except Exception as e:  # noqa
            vals, ref, exc = [], True, repr(e)[:200]
        ev.append(dict(op="expect", n=n, res=res, vals=vals, refused=ref, exc=exc))

    for o in p["ops"]:
        k = o[0]
        if k == "setop":
            ops[o[1]][S[o[2]]] = o[3]
            put(dict(op="setop", n=o[1], s=o[2], k=o[3]))
            continue
        n = o[1]
        e = dict(op=k, n=n)
        try:
            if k == "new":
                e["o"] = o[2]
                trs[n] = ObservableTracker(ops[o[2]])
            elif k == "new0":
                trs[n] = ObservableTracker()
            elif k == "copy":
                e["m"] = o[2]
                trs[n] = ObservableTracker.from_ObservableTracker(trs[o[2]])
            elif k == "extend":
                e["o"] = o[2]
                trs[n].extend_operator(ops[o[2]])
            elif k == "modify":
                e["ps"] = o[2]
                trs[n].modify_coefficients([(S[s], c) for s, c in o[2]])
            elif k == "remove":
                e["ss"] = o[2]
                trs[n].remove_strings([S[s] for s in o[2]])
            elif k == "add":
                e["c"], e["infos"] = o[2], o[3]
                trs[n].add_measurement_circuit(MeasurementCircuit(Circuit(1, 3, name=str(o[2]))),
                                               [(S[s], [Bit(j) for j in b], v) for s, b, v in o[3]])
            elif k == "clear":
                trs[n].clear()
        except Exception as x:  # noqa
            e.update(refused=True, exc=repr(x)[:200])
        put(e)
        if rng.random() < .3:
            expect(rng.choice(sorted(trs)))
    for n in sorted(trs):
        expect(n)
    return dict(ev=ev)
