"""Deterministic stand-ins for devices: exact simulation by branching, shots
apportioned without sampling, so a difference in a trace is a difference in
what the code asked for or did with the answer."""
import itertools, uuid
from collections import Counter
import numpy as np
from pytket import Circuit, Bit, Qubit, OpType
from pytket.architecture import FullyConnected, Architecture
from pytket.backends import Backend, ResultHandle, CircuitStatus, StatusEnum
from pytket.backends.backendinfo import BackendInfo
from pytket.backends.backendresult import BackendResult
from pytket.passes import DecomposeBoxes, SequencePass, RebaseTket, AutoRebase
from pytket.predicates import NoSymbolsPredicate
from pytket.utils.outcomearray import OutcomeArray


def branches(circ):
    """Exact outcome distribution: {tuple of bit values in circ.bits order: probability}."""
    if any(c.op.type in (OpType.CircBox, OpType.PauliExpBox, OpType.Unitary1qBox) for c in circ.get_commands()):
        circ = circ.copy()
        DecomposeBoxes().apply(circ)
    qs, bs = circ.qubits, circ.bits
    n = len(qs)
    qi = {q: i for i, q in enumerate(qs)}
    bi = {b: i for i, b in enumerate(bs)}
    st = np.zeros((2,) * n, complex)
    st[(0,) * n] = 1
    live = {tuple([0] * len(bs)): [(st, 1.0)]}

    def apply(v, u, idx):
        k = len(idx)
        u = u.reshape((2,) * (2 * k))
        v = np.tensordot(u, v, axes=(list(range(k, 2 * k)), idx))
        return np.moveaxis(v, list(range(k)), idx)

    for cmd in circ.get_commands():
        op, typ = cmd.op, cmd.op.type
        cond = None
        args = cmd.args
        if typ == OpType.Conditional:
            w = op.width
            cond = ([bi[b] for b in args[:w]], op.value)
            args = args[w:]
            op = op.op
            typ = op.type
        new = {}
        for bits, vs in live.items():
            fire = cond is None or sum(bits[j] << m for m, j in enumerate(cond[0])) == cond[1]
            for v, pr in vs:
                if not fire or typ in (OpType.Barrier, OpType.noop):
                    new.setdefault(bits, []).append((v, pr))
                elif typ == OpType.Measure:
                    q, b = qi[args[0]], bi[args[1]]
                    for val in (0, 1):
                        w_ = v.copy()
                        sl = [slice(None)] * n
                        sl[q] = 1 - val
                        w_[tuple(sl)] = 0
                        nrm = float(np.vdot(w_, w_).real)
                        if nrm > 1e-12:
                            nb = bits[:b] + (val,) + bits[b + 1:]
                            new.setdefault(nb, []).append((w_ / np.sqrt(nrm), pr * nrm))
                elif typ == OpType.Reset:
                    q = qi[args[0]]
                    for val in (0, 1):
                        sl = [slice(None)] * n
                        sl[q] = val
                        part = v[tuple(sl)]
                        nrm = float(np.vdot(part, part).real)
                        if nrm > 1e-12:
                            w_ = np.zeros_like(v)
                            sl[q] = 0
                            w_[tuple(sl)] = part / np.sqrt(nrm)
                            new.setdefault(bits, []).append((w_, pr * nrm))
                elif typ in (OpType.SetBits,):
                    nb = list(bits)
                    for a, val in zip(args, op.values):
                        nb[bi[a]] = int(val)
                    new.setdefault(tuple(nb), []).append((v, pr))
                else:
                    new.setdefault(bits, []).append((apply(v, op.get_unitary(), [qi[a] for a in args]), pr))
        live = new
    return {b: sum(p for _, p in vs) for b, vs in live.items()}


def apportion(dist, n):
    """n shots shared out by largest remainder; ties by outcome."""
    items = sorted(dist.items())
    fl = [(b, int(np.floor(p * n + 1e-9)), p * n) for b, p in items]
    left = n - sum(f for _, f, _ in fl)
    order = sorted(range(len(fl)), key=lambda k: (-(fl[k][2] - fl[k][1]), fl[k][0]))
    add = {order[k % len(order)] for k in range(left)} if left > 0 else set()
    return {b: f + (1 if k in add else 0) for k, (b, f, _) in enumerate(fl) if f + (1 if k in add else 0)}


class DetBackend(Backend):
    """Records every submission (self.log) and answers exactly."""
    _supports_shots = True
    _supports_counts = True
    _persistent_handles = False

    def __init__(self, n=5, arch=None, noise=None, compile_pass=None, as_counts=False, answer=None):
        super().__init__()
        self.n = n
        self.arch = arch or FullyConnected(n)
        self.log = []
        self.noise = noise            # circuit, dist -> dist
        self.compile_pass = compile_pass
        self.as_counts = as_counts
        self.answer = answer          # (circuit, shots, index) -> BackendResult
        self._results = {}
        gs = {OpType.CX, OpType.CZ, OpType.H, OpType.X, OpType.Y, OpType.Z, OpType.S, OpType.Sdg, OpType.Rz, OpType.Rx,
              OpType.Ry, OpType.V, OpType.Vdg, OpType.Measure, OpType.Barrier, OpType.Reset, OpType.T, OpType.Tdg,
              OpType.SX, OpType.SXdg, OpType.TK1, OpType.U3, OpType.SWAP, OpType.ZZMax, OpType.ZZPhase, OpType.CRz}
        self._info = BackendInfo("DetBackend", "det", "1", self.arch, gs, supports_midcircuit_measurement=True)

    @property
    def backend_info(self):
        return self._info

    @property
    def required_predicates(self):
        return [NoSymbolsPredicate()]

    def rebase_pass(self):
        return RebaseTket()

    def default_compilation_pass(self, optimisation_level=2):
        return self.compile_pass or SequencePass([DecomposeBoxes()])

    @property
    def _result_id_type(self):
        return (str,)

    def circuit_status(self, handle):
        return CircuitStatus(StatusEnum.COMPLETED)

    def process_circuits(self, circuits, n_shots=None, valid_check=True, **kw):
        circuits = list(circuits)
        if n_shots is None or isinstance(n_shots, int):
            n_shots = [n_shots] * len(circuits)
        assert len(n_shots) == len(circuits)
        hs = []
        for c, s in zip(circuits, n_shots):
            h = ResultHandle(str(len(self._results)))
            self.log.append((c.copy(), s))
            self._results[h] = self.make(c, s, len(self.log) - 1)
            hs.append(h)
        return hs

    def make(self, c, s, k):
        if self.answer is not None:
            r = self.answer(c, s, k)
            if r is not None:
                return r
        d = branches(c)
        if self.noise is not None:
            d = self.noise(c, d)
        cnt = apportion(d, s)
        if not c.bits:
            return BackendResult(counts=Counter({OutcomeArray.from_readouts([[]]): s}), c_bits=[]) if self.as_counts \
                else BackendResult(shots=OutcomeArray.from_readouts(np.zeros((s, 0), dtype=int)), c_bits=[])
        if self.as_counts:
            return BackendResult(counts=Counter({OutcomeArray.from_readouts([b]): v for b, v in cnt.items()}), c_bits=c.bits)
        rows = [b for b, v in sorted(cnt.items()) for _ in range(v)]
        return BackendResult(shots=OutcomeArray.from_readouts(rows), c_bits=c.bits)

    def get_result(self, handle, **kw):
        return self._results[handle]

    def get_results(self, handles, **kw):
        return [self._results[h] for h in handles]


def batch_mitex(backend, f):
    """A MitEx that answers f(list of experiments) -> [{string: value}]."""
    from pytket.utils import QubitPauliOperator
    from typing import List, Tuple
    from qermit import MitEx, MitTask, ObservableExperiment, TaskGraph

    def task(obj, wires: List[ObservableExperiment]) -> Tuple[List[QubitPauliOperator]]:
        return ([QubitPauliOperator(d) for d in f(wires)],)
    g = TaskGraph(_label="Batch")
    g.append(MitTask(_label="Batch", _n_in_wires=1, _n_out_wires=1, _method=task))
    return MitEx(backend).from_TaskGraph(g)


def answer_mitex(backend, f, log=None):
    """A MitEx that records the experiments it is given and answers f(k, experiment, string) for each."""
    from pytket.utils import QubitPauliOperator
    from typing import List, Tuple
    from qermit import MitEx, MitTask, ObservableExperiment, TaskGraph

    def task(obj, wires: List[ObservableExperiment]) -> Tuple[List[QubitPauliOperator]]:
        out = []
        for k, w in enumerate(wires):
            if log is not None:
                log.append(w)
            d = {s: f(k, w, s) for s in w.ObservableTracker.qubit_pauli_operator._dict}
            # the order of an operator's strings says nothing
            out.append(QubitPauliOperator({s: d[s] for s in (reversed(list(d)) if k % 2 else d)}))
        return (out,)
    g = TaskGraph(_label="Answer")
    g.append(MitTask(_label="Answer", _n_in_wires=1, _n_out_wires=1, _method=task))
    return MitEx(backend).from_TaskGraph(g)


def run_parametric(w):
    """Circuit of an experiment with its symbols substituted."""
    c = w.AnsatzCircuit.Circuit.copy()
    c.symbol_substitution(w.AnsatzCircuit.SymbolsDict._symbolic_map)
    return c
