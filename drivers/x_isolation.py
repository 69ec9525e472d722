"""A user's component handed to a library generator: observe it before and
after the generated scheme is built (and run), for T03."""
from typing import List, Tuple
from pytket import Circuit, Qubit
from pytket.backends.backendresult import BackendResult
from pytket.circuit import Node
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from qermit import (MitEx, MitRes, CircuitShots, ObservableExperiment, AnsatzCircuit,
                    ObservableTracker, SymbolsDict, MitTask, TaskGraph)
from drivers.mocks import DetBackend


def graph_view(g):
    """Labels, wire counts and data of a graph and of every graph inside it."""
    labels, char = [], []

    def go(x, path):
        labels.append([path, str(x._label)])
        char.append([path, sorted(str(k) + "=" + str(v) for k, v in x.characterisation.items())])
        if isinstance(x, TaskGraph):
            for t in sorted(x.tasks, key=lambda t: str(getattr(t, "_label", t))):
                go(t, path + "/" + str(getattr(t, "_label", t)))
    go(g, "")
    return sorted(labels), sorted(char)


def view(g, run):
    result = run(g)               # tasks hold what the graph holds once it ran
    labels, char = graph_view(g)
    return dict(labels=labels, nin=g.n_in_wires, nout=g.n_out_wires, char=char, result=result)


def run_mitres(m):
    c = Circuit(2, 2).X(1).Measure(0, 0).Measure(1, 1)
    d = Circuit(1, 1).X(0).Measure(0, 0)
    return [sorted([list(k), v] for k, v in r.get_counts().items())
            for r in m.run([CircuitShots(c, 20), CircuitShots(d, 30)])]


def qps(s):
    return QubitPauliString([Qubit(i) for i in range(len(s))], [getattr(Pauli, p) for p in s])


def experiment(c, d, sym=None):
    return ObservableExperiment(AnsatzCircuit(c, 50, sym or SymbolsDict()),
                                ObservableTracker(QubitPauliOperator({qps(s): v for s, v in d.items()})))


def run_mitex(m):
    c = Circuit(2).X(0).CX(0, 1)
    res = m.run([experiment(c, {"ZI": 1, "ZZ": 2}), experiment(Circuit(1).X(0), {"Z": 3})])
    return [sorted([str(k), round(1000 * float(complex(v).real))] for k, v in q._dict.items()) for q in res]


def cs_same(o, x: List[CircuitShots]) -> Tuple[List[CircuitShots]]:
    return (x,)


def br_same(o, x: List[BackendResult]) -> Tuple[List[BackendResult]]:
    return (x,)


def qpo_same(o, x: List[QubitPauliOperator]) -> Tuple[List[QubitPauliOperator]]:
    return (x,)


def mk_mitres(b, lab):
    m = MitRes(b, _label=lab)
    m.prepend(MitTask(_label="UserTask", _n_in_wires=1, _n_out_wires=1, _method=cs_same))
    return m


def mk_mitex(b, lab):
    m = MitEx(b, _label=lab, mitres=MitRes(b, _label=lab + "Res"))
    m.append(MitTask(_label="UserTask", _n_in_wires=1, _n_out_wires=1, _method=qpo_same))
    return m


def build(kind, b, comps):
    res = lambda lab: comps.setdefault(lab, (mk_mitres(b, lab), run_mitres))[0]
    ex = lambda lab: comps.setdefault(lab, (mk_mitex(b, lab), run_mitex))[0]
    if kind == "frame_randomisation":
        from qermit.frame_randomisation import gen_Frame_Randomisation_MitRes
        return gen_Frame_Randomisation_MitRes(b, 3, mitres=res("U"))
    if kind == "measurement_reduction":
        from qermit.taskgraph import gen_MeasurementReduction_MitEx
        return gen_MeasurementReduction_MitEx(b, mitex=ex("U"))
    if kind == "spam":
        from qermit.spam import gen_FullyCorrelated_SPAM_MitRes
        return gen_FullyCorrelated_SPAM_MitRes(b, 10, [[Node(0)], [Node(1)]],
                                               calibration_mitres=res("U"), correction_mitres=res("V"))
    if kind == "spam_shared":
        from qermit.spam import gen_FullyCorrelated_SPAM_MitRes
        return gen_FullyCorrelated_SPAM_MitRes(b, 10, [[Node(0)], [Node(1)]],
                                               calibration_mitres=res("U"), correction_mitres=res("U"))
    if kind == "dfsc":
        from qermit.clifford_noise_characterisation import gen_DFSC_MitEx
        return gen_DFSC_MitEx(b, experiment_mitex=ex("U"), characterisation_mitex=ex("V"))
    if kind == "dfsc_shared":
        from qermit.clifford_noise_characterisation import gen_DFSC_MitEx
        return gen_DFSC_MitEx(b, experiment_mitex=ex("U"), characterisation_mitex=ex("U"))
    if kind == "cdr":
        from qermit.clifford_noise_characterisation import gen_CDR_MitEx
        return gen_CDR_MitEx(b, b, 1, 1, 2, states_device_mitex=ex("U"), experiment_mitex=ex("V"),
                             states_simulator_mitex=ex("W"))
    if kind == "spectral":
        from qermit.spectral_filtering import gen_spectral_filtering_MitEx
        return gen_spectral_filtering_MitEx(b, 2, experiment_mitex=ex("U"), experiment_mitres=res("V"))
    if kind == "spectral_res":
        from qermit.spectral_filtering import gen_spectral_filtering_MitEx
        return gen_spectral_filtering_MitEx(b, 2, experiment_mitres=res("V"))
    if kind == "zne":
        from qermit.zero_noise_extrapolation import gen_ZNE_MitEx
        return gen_ZNE_MitEx(b, [1, 3], experiment_mitex=ex("U"))
    if kind == "zne_res":
        from qermit.zero_noise_extrapolation import gen_ZNE_MitEx
        return gen_ZNE_MitEx(b, [1, 3], experiment_mitres=res("V"))
    if kind == "pec":
        from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx
        return gen_PEC_learning_based_MitEx(b, b, simulator_mitex=ex("U"), device_mitex=ex("V"))
    if kind == "postselect":
        from qermit.postselection import gen_postselect_mitres, PostselectMgr
        from pytket import Bit
        return gen_postselect_mitres(b, PostselectMgr([Bit(0)], [Bit(1)]), mitres=res("U"))
    if kind == "leakage":
        from qermit.leakage_detection import get_leakage_detection_mitres
        return get_leakage_detection_mitres(b, mitres=res("U"))
    if kind == "mitex_mitres":
        return MitEx(b, mitres=res("U"))
    raise ValueError(kind)


def use_scheme(kind, s):
    """Run the generated scheme once where that is cheap."""
    c = Circuit(2, 2).X(0).CX(0, 1).Measure(0, 0).Measure(1, 1)
    if kind in ("frame_randomisation", "spam", "spam_shared", "postselect"):
        s.run([CircuitShots(c, 20)])
    elif kind in ("measurement_reduction", "zne", "zne_res", "mitex_mitres", "dfsc", "dfsc_shared"):
        s.run([experiment(Circuit(2).X(0).CX(0, 1), {"ZI": 1, "ZZ": 2})])


def execute(p):
    kind = p["kind"]
    b = DetBackend(4)
    # the components as they are before: build once without the generator
    comps = {}
    build(kind, b, comps)                       # discover what it takes
    fresh = {}
    for lab in comps:
        isres = comps[lab][1] is run_mitres
        fresh[lab] = (mk_mitres(b, lab) if isres else mk_mitex(b, lab), comps[lab][1])
        fresh[lab][0].characterisation = {"user": lab}
    before = {lab: view(g, r) for lab, (g, r) in fresh.items()}
    order = []
    scheme = build(kind, b, fresh)
    mid = {lab: view(g, r) for lab, (g, r) in fresh.items()}
    ev = [dict(op="use", name=kind + ":" + lab + ":build", ok=True, before=before[lab], after=mid[lab]) for lab in fresh]
    if p.get("run"):
        ok, exc = True, ""
        try:
            use_scheme(kind, scheme)
        except Exception as e:  # noqa
            ok, exc = False, repr(e)[:300]
        for lab, (g, r) in fresh.items():
            ev.append(dict(op="use", name=kind + ":" + lab + ":run", ok=ok, exc=exc, before=before[lab], after=view(g, r)))
    sv = graph_view(scheme)
    for lab, (g, r) in fresh.items():           # and back: changing it leaves the scheme alone
        g.append(MitTask(_label="Later", _n_in_wires=1, _n_out_wires=1, 
                         _method=br_same if r is run_mitres else qpo_same))
        g.characterisation["later"] = 1
        g._label = "renamed"
    sw = graph_view(scheme)
    r0 = dict(nin=scheme.n_in_wires, nout=scheme.n_out_wires, result=[])
    ev.append(dict(op="use", name=kind + ":scheme", ok=True, before=dict(labels=sv[0], char=sv[1], **r0),
                   after=dict(labels=sw[0], char=sw[1], **r0)))
    return dict(tasks=[], ev=ev)
