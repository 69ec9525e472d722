"""Recording circuits for the specification (spec/Pauli.tla)."""
import math
from pytket import Circuit, OpType, Qubit, Bit
from pytket.passes import DecomposeBoxes

QT = 2000                      # angle units per quarter turn; a half turn is 2 * QT
UNIT = 2 * QT
FIXED = {"X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "SX", "SXdg", "H", "CX", "CY", "CZ", "SWAP", "ZZMax",
         "Barrier", "noop", "Phase"}
KNOWN = FIXED | {"ECR", "ISWAPMax", "BRIDGE"}
ANGLED = {"Rz", "Rx", "Ry", "U1", "U2", "U3", "TK1", "TK2", "PhasedX", "ZZPhase", "XXPhase", "YYPhase", "CRz"}
BOXES = (OpType.CircBox, OpType.PauliExpBox, OpType.ExpBox, OpType.Unitary1qBox, OpType.Unitary2qBox)


class Inexact(Exception):
    pass


def units(x):
    v = float(x) * UNIT
    r = round(v)
    if abs(v - r) > 1e-4:
        raise Inexact(x)
    return r


def flat(circ):
    if any(c.op.type in BOXES for c in circ.get_commands()):
        circ = circ.copy()
        DecomposeBoxes().apply(circ)
    return circ


def perm_swaps(circ, qi):
    """The implicit permutation of a circuit as SWAP gates after the commands."""
    perm = {qi[a]: qi[b] for a, b in circ.implicit_qubit_permutation().items()}
    at = {k: k for k in perm}        # position -> what is there
    out = []
    for k in sorted(perm):
        p = next(x for x in at if at[x] == k)
        t = perm[k]
        if p != t:
            out.append(dict(g="SWAP", q=[p, t], a=[], b=[]))
            at[p], at[t] = at[t], at[p]
    return out


def whole(circ, qubits, bits, tags=None):
    """Everything a circuit does, for spec/Circ.tla; bits are wires after the qubits."""
    circ = flat(circ)
    qi = {q: k + 1 for k, q in enumerate(qubits)}
    bi = {b: len(qubits) + k + 1 for k, b in enumerate(bits)}
    tags = {} if tags is None else tags
    out = []
    for cmd in circ.get_commands():
        op, name = cmd.op, cmd.op.type.name
        qs = [qi[q] for q in cmd.qubits]
        bs = [x for x in cmd.args if isinstance(x, Bit)]
        if name in ("Measure", "Reset", "Conditional", "SetBits", "CopyBits"):
            if name == "Conditional":
                name = "IF %d %s" % (op.value, op.op)
                r, w = [bi[x] for x in bs[:op.width]], [bi[x] for x in bs[op.width:]]
            else:
                r, w = [], [bi[x] for x in bs]
            t = tags.setdefault((name, tuple(qs), tuple(r), tuple(w)), 2 * len(tags) + 1)
            assert t < QT
            out.append(dict(g=name, q=qs, a=[], t=t, r=r, w=w))
        elif name in ("Barrier", "noop", "Phase"):
            out.append(dict(g=name, q=qs, a=[]))
        else:
            out.append(dict(one(op), q=qs))
    return out + [dict(g="SWAP", q=x["q"], a=[]) for x in perm_swaps(circ, qi)]


def one(op):
    name = op.type.name
    if name in KNOWN:
        return dict(g=name, a=[])
    if name in ANGLED:
        a = [units(x) for x in op.params]
        if name == "CRz" and a[0] % 2:
            raise Inexact(a)
        return dict(g=name, a=a)
    if name == "ISWAP":      # exp(i pi a/4 (XX + YY))
        a = units(op.params[0])
        if a % 2:
            raise Inexact(a)
        return dict(g="TK2", a=[-a // 2, -a // 2, 0])
    raise Inexact(name)


def gates(circ, qubits=None, keep=()):
    """Unitary part as gates on qubit numbers 1.. ; measurements as name
    "Measure" with b = bit name. keep: other op names passed through as they are."""
    circ = flat(circ)
    qubits = circ.qubits if qubits is None else qubits
    qi = {q: k + 1 for k, q in enumerate(qubits)}
    out = []
    for cmd in circ.get_commands():
        name = cmd.op.type.name
        qs = [qi[q] for q in cmd.qubits]
        if name == "Measure":
            out.append(dict(g=name, q=qs, a=[], b=[str(b) for b in cmd.bits]))
        elif name in ("Barrier", "noop", "Phase"):
            out.append(dict(g=name, q=qs, a=[], b=[str(b) for b in cmd.bits]))
        elif name in KNOWN:
            out.append(dict(g=name, q=qs, a=[], b=[]))
        elif name in ANGLED:
            a = [units(p) for p in cmd.op.params]
            if name == "CRz" and a[0] % 2:
                raise Inexact(a)
            out.append(dict(g=name, q=qs, a=a, b=[]))
        elif name in keep:
            out.append(dict(g=name, q=qs, a=[], b=[str(b) for b in cmd.bits]))
        else:
            raise Inexact(name)
    return out + perm_swaps(circ, qi)


def unitary_part(circ, qubits=None):
    return [g for g in gates(circ, qubits) if g["g"] not in ("Measure", "Barrier", "noop", "Phase")]


LET = {0: 0, 1: 1, 2: 2, 3: 3}


def letters(qps, qubits):
    """QubitPauliString -> letters in qubit order."""
    return [int(qps[q]) for q in qubits]
