"""SPAM calibration and correction (S14, S15, S16)."""
import itertools, random, warnings
from collections import Counter
import numpy as np
from pytket import Bit, Circuit, OpType
from pytket.architecture import Architecture, FullyConnected
from pytket.backends.backendresult import BackendResult
from pytket.circuit import Node
from pytket.utils.outcomearray import OutcomeArray
from qermit import CircuitShots, MitRes
from drivers.mocks import DetBackend, apportion, branches

KEY = "FullCorrelatedSpamCorrection"
SCALE = 100000


def partition(rng, nodes, most=3):
    nodes = rng.sample(nodes, len(nodes))
    parts = []
    while nodes:
        k = min(len(nodes), rng.choice([1, 1, 2, 2, 3][:most + 2]))
        parts.append(nodes[:k])
        nodes = nodes[k:]
    return parts


def columns(rng, d, ideal):
    """A readout map in tenths: a probability distribution for every prepared state, mostly right."""
    D = 1 << d
    if ideal:
        return np.eye(D)
    m = np.zeros((D, D))
    for p in range(D):
        rest = rng.choice([0, 1, 2, 3])
        m[p, p] = 10 - rest
        for _ in range(rest):
            m[rng.randrange(D), p] += 1
    return m / 10


def prepared(c, nodes):
    """Basis state in which a circuit measures every node, and the bits they are measured on."""
    at = {}
    for cmd in c.get_commands():
        if cmd.op.type == OpType.Measure:
            at[cmd.args[0]] = cmd.args[1]
    dist = [b for b, p in branches(c).items() if p > 1e-9]
    if len(dist) != 1 or any(q not in at for q in nodes) or len(set(at.values())) != len(at):
        return None, at
    return [dist[0][c.bits.index(at[q])] for q in nodes], at


def table(c, vals, at, nodes, parts, maps, shots):
    """Outcomes of a calibration circuit read through the maps: rows of values of the nodes."""
    dist = {}
    for combo in itertools.product(*[range(1 << len(p)) for p in parts]):
        w, pr = {}, 1.0
        for m, part, k in zip(maps, parts, combo):
            d = len(part)
            pr *= m[k, int("".join(str(vals[nodes.index(q)]) for q in part), 2)]
            for j, q in enumerate(part):
                w[q] = (k >> (d - 1 - j)) & 1
        if pr > 1e-12:
            dist[tuple(w[q] for q in nodes)] = dist.get(tuple(w[q] for q in nodes), 0) + pr
    return sorted(apportion(dist, shots).items())


def as_result(c, rows, nodes, at, extra=0):
    counts = Counter()
    for vals, k in rows:
        b = [0] * len(c.bits)
        for q, v in zip(nodes, vals):
            b[c.bits.index(at[q])] = v
        counts[OutcomeArray.from_readouts([b])] += k
    return BackendResult(counts=counts, c_bits=c.bits)


def matrices(ch, parts):
    """Calibration matrices by configured subset, as scaled integers, read with the index of every node."""
    out = []
    for part in parts:
        x = {ch.NodeToIntDict[q][0] for q in part}
        assert len(x) == 1
        m = ch.CharacterisationMatrices[x.pop()]
        d = len(part)
        pos = [ch.NodeToIntDict[q][1] for q in part]

        def idx(w):
            return sum(((w >> (d - 1 - j)) & 1) << (d - 1 - pos[j]) for j in range(d))
        out.append([[round(float(m[idx(a), idx(b)]) * SCALE) for b in range(1 << d)] for a in range(1 << d)])
    return out


def calibrate(p):
    from qermit.spam.full_transition_tomography import calculate_correlation_matrices, get_full_transition_tomography_circuits
    rng = random.Random(p["seed"])
    warnings.simplefilter("ignore")
    n = rng.choice([1, 2, 3, 4, 5])
    nodes = [Node(rng.choice(["node", "q"]), j) for j in rng.sample(range(9), n)]
    parts = partition(rng, nodes)
    be = DetBackend(n, arch=Architecture([(a, b) for a in nodes for b in nodes if a != b]) if n > 1 else FullyConnected(1))
    ideal = rng.random() < .2
    e = dict(op="calibrate", n=n, parts=[[nodes.index(q) + 1 for q in s] for s in parts], cals=[], mats=[], ok=True, states=True, ideal=ideal, exc="")
    try:
        circs, infos = get_full_transition_tomography_circuits(Circuit(n), be, parts)
        # results come with bits in any order
        res = []
        for c in circs:
            vals, at = prepared(c, nodes)
            if vals is None:
                e["cals"].append(dict(prep=[], seen=[]))
                continue
            rows = Counter()
            if ideal:
                rows[tuple(vals)] = rng.randint(1, 50)
            else:
                for _ in range(rng.randint(1, 12)):
                    rows[tuple(rng.randint(0, 1) for _ in nodes)] += rng.randint(1, 30)
            e["cals"].append(dict(prep=vals, seen=[[list(v), k] for v, k in sorted(rows.items())]))
            res.append(as_result(c, sorted(rows.items()), nodes, at))
        if all(c["prep"] for c in e["cals"]):
            e["states"] = len(infos) == len(circs) and all(
                {q: v for s, vs in i.PreparedStates.items() for q, v in zip(s, vs)} == dict(zip(nodes, c["prep"]))
                for i, c in zip(infos, e["cals"]))
            ch = calculate_correlation_matrices(res, infos, parts)
            e["mats"] = matrices(ch, parts)
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    return dict(ev=[e])


def layout(rng, nodes, plain):
    """A circuit on some nodes and its measurements."""
    k = rng.randint(1, len(nodes))
    use = rng.sample(nodes, k)
    nb = rng.randint(1, 4)
    c = Circuit()
    for q in use:
        c.add_qubit(q)
    for b in rng.choice([range(nb), reversed(range(nb))]):
        c.add_bit(Bit(b) if rng.random() < .8 else Bit("z", b))
    bits = rng.sample(c.bits, nb)
    if plain:
        bits = bits[:min(k, nb)]
        for q in use:
            if rng.random() < .5:
                c.X(q)
        if rng.random() < .3 and k > 1:
            c.SWAP(*rng.sample(use, 2))
            c.CX(*rng.sample(use, 2))
            if rng.random() < .6:
                c.replace_SWAPs()
        mq = rng.sample(c.qubits, len(bits))
        for q, b in zip(mq, bits):
            c.Measure(q, b)
        return c
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        if r < .5:
            c.Measure(rng.choice(use), rng.choice(bits))
        elif r < .8:
            c.X(rng.choice(use))
        elif r < .9 and k > 1:
            c.CX(*rng.sample(use, 2))
        else:
            c.add_barrier(use)
    return c


def gates(c, nodes):
    out = []
    for cmd in c.get_commands():
        if cmd.op.type == OpType.Barrier:
            continue
        if cmd.op.type == OpType.Measure:
            out.append(["M", nodes.index(cmd.args[0]) + 1, c.bits.index(cmd.args[1]) + 1])
        else:
            out += [["U", nodes.index(q) + 1, 0] for q in cmd.qubits]
    return out


def channels(gs, d, parts, maps, nodes):
    """The readout maps that act on the bits of a circuit (only used to make up plausible results)."""
    out = []
    last = {}
    for j, (g, q, b) in enumerate(gs):
        if g == "M":
            last[b] = j
    end = {q: max(j for j, g in enumerate(gs) if g[1] == q) for _, q, _ in gs}
    final = {gs[j][1]: b for b, j in last.items() if end[gs[j][1]] == j}
    for part, m in zip(parts, maps):
        idx = [nodes.index(q) + 1 for q in part]
        keep = [j for j, q in enumerate(idx) if q in final]
        if keep:
            out.append(([final[idx[j]] for j in keep], reduced(m, keep, len(part))))
    for b, j in sorted(last.items()):
        q = gs[j][1]
        if end[q] != j:
            for part, m in zip(parts, maps):
                idx = [nodes.index(v) + 1 for v in part]
                if q in idx:
                    out.append(([b], reduced(m, [idx.index(q)], len(part))))
    return out


def reduced(m, keep, d):
    def up(v):
        return sum(((v >> (len(keep) - 1 - j)) & 1) << (d - 1 - k) for j, k in enumerate(keep))
    r = np.array([[m[up(a), up(b)] for b in range(1 << len(keep))] for a in range(1 << len(keep))])
    return r / r.sum(axis=0)


def through(vec, chs, d):
    for on, m in chs:
        new = np.zeros_like(vec)
        for w in range(1 << d):
            get = int("".join(str((w >> (d - b)) & 1) for b in on), 2)
            for v in range(1 << len(on)):
                src = w
                for j, b in enumerate(on):
                    bit = (v >> (len(on) - 1 - j)) & 1
                    src = (src & ~(1 << (d - b))) | (bit << (d - b))
                new[w] += m[get, v] * vec[src]
        vec = new
    return vec


def runs(p):
    from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes
    from qermit.spam.full_transition_tomography import FullCorrelatedNoiseCharacterisation
    rng = random.Random(p["seed"])
    warnings.simplefilter("ignore")
    n = rng.choice([1, 2, 2, 3, 3, 4])
    nodes = [Node("q", j) for j in rng.sample(range(9), n)]
    if n > 1:
        arch = Architecture([(a, b) for a in nodes for b in nodes if a != b])
    else:
        nodes = [Node("fcNode", 0)]
        arch = FullyConnected(1)
    hist = p.get("hist") or [["run", rng.randint(1, 3)] for _ in range(rng.choice([1, 1, 2]))]
    uncorrelated = rng.random() < .25
    parts = [[q] for q in arch.nodes] if uncorrelated else partition(rng, nodes)
    num = [[nodes.index(q) + 1 for q in s] for s in parts]
    method = rng.choice(["Invert", "Invert", "Invert", "Bayesian"])
    calshots = 10 ** max(3, len(parts))
    ideal = rng.random() < .15
    separate = rng.random() < .3
    state = dict(maps=None, cals=[], todo=[], ran=[], where=set())
    evs = []

    def answer(c, s, k, which):
        if s == calshots:
            state["where"].add(("cal", which))
            vals, at = prepared(c, nodes)
            if vals is None:
                state["cals"].append(dict(prep=[], seen=[]))
                return None
            rows = table(c, vals, at, nodes, parts, state["fresh"], s)
            state["cals"].append(dict(prep=vals, seen=[[list(v), k] for v, k in rows]))
            return as_result(c, rows, nodes, at)
        state["where"].add(("run", which))
        j = [t["shots"] for t in state["todo"]].index(s) if s in [t["shots"] for t in state["todo"]] else None
        state["ran"].append(0 if j is None else j + 1)
        if j is None:
            return None
        t = state["todo"][j]
        return BackendResult(counts=Counter({OutcomeArray.from_readouts([[(w >> (t["d"] - 1 - b)) & 1 for b in range(t["d"])]]): v
                                             for w, v in enumerate(t["seen"]) if v}), c_bits=c.bits)
    A, B = (DetBackend(n, arch=arch, answer=lambda c, s, k, w=w: answer(c, s, k, w)) for w in "AB")
    kw = dict(correction_method=getattr(CorrectionMethod, method)) if method != "Invert" or rng.random() < .5 else {}
    if separate:
        kw["calibration_mitres"] = MitRes(B)
        if rng.random() < .5:
            kw["correction_mitres"] = MitRes(A)
    try:
        M = gen_UnCorrelated_SPAM_MitRes(A, calshots, **kw) if uncorrelated else gen_FullyCorrelated_SPAM_MitRes(A, calshots, parts, **kw)
    except Exception as x:  # noqa
        return dict(ev=[dict(op="crash", exc=repr(x)[:300])])

    def fresh_maps():
        return [columns(rng, len(s), ideal) for s in parts]

    def held():
        ch = M.get_characterisation().get(KEY) if hasattr(M, "get_characterisation") else M.characterisation.get(KEY)
        return ch
    pre = "none"
    preset = []
    have = None
    for what, k in hist:
        if what == "clear":
            M.set_characterisation({})
            pre, preset, have = "clear", [], None
            continue
        if what in ("preset", "other"):
            maps = [columns(rng, len(s), ideal) for s in parts]
            order = sorted(range(len(parts)), key=lambda j: -len(parts[j]))
            named = parts
            ms = [maps[j] for j in order]
            if what == "other":
                named = partition(rng, nodes + [Node("far", 0)])
                order = sorted(range(len(named)), key=lambda j: -len(named[j]))
                ms = [columns(rng, len(named[j]), False) for j in order]
            idx = {q: (x, y) for x, j in enumerate(order) for y, q in enumerate(named[j])}
            M.set_characterisation({KEY: FullCorrelatedNoiseCharacterisation([list(s) for s in named], idx, ms)})
            pre, have = what, maps if what == "preset" else None
            preset = [[[round(10 * v) for v in row] for row in m.tolist()] for m in maps] if what == "preset" else []
            continue
        state.update(fresh=fresh_maps(), cals=[], todo=[], ran=[], where=set())
        maps = have if have is not None else state["fresh"]
        reqs, given = [], []
        for sh in rng.sample(range(20000, 40000), k):
            c = layout(rng, nodes, rng.random() < .6)
            d = len(c.bits)
            gs = gates(c, nodes)
            chs = channels(gs, d, num_nodes(num, nodes), maps, nodes)
            kind = "real" if rng.random() < .75 else "any"
            if kind == "real":
                t = np.array([rng.choice([0, 0, 1, 3, 8]) for _ in range(1 << d)], float)
                t[rng.randrange(1 << d)] += 2
                if method == "Bayesian":
                    t += 2
                obs = through(t / t.sum(), chs, d)
            else:
                obs = np.array([rng.choice([0, 0, 1, 5]) for _ in range(1 << d)], float)
                obs[rng.randrange(1 << d)] += 1
                obs /= obs.sum()
            cnt = apportion({(w,): float(v) for w, v in enumerate(obs) if v > 1e-12}, sh)
            seen = [cnt.get((w,), 0) for w in range(1 << d)]
            state["todo"].append(dict(shots=sh, d=d, seen=seen))
            reqs.append(dict(gs=gs, d=d, seen=seen, kind=kind))
            given.append(CircuitShots(Circuit=c, Shots=sh))
        e = dict(op="run", ok=True, pre=pre, preset=preset, parts=num, n=n, method=method, reqs=reqs, outs=[], cals=[], mats=[],
                 measured=[], devices=True, held=[], exc="")
        evs.append(e)
        bits = [g.Circuit.bits for g in given]
        try:
            out = M.run(given)
        except Exception as x:  # noqa
            e.update(ok=False, exc=repr(x)[:300])
            break
        e["cals"], e["measured"] = state["cals"], state["ran"]
        e["devices"] = state["where"] <= ({("cal", "B"), ("run", "A")} if separate else {("cal", "A"), ("run", "A")})
        if e["cals"]:
            have = state["fresh"]
        ch = held()
        if ch is not None:
            e["held"] = [[nodes.index(q) + 1 if q in nodes else 0 for q in s] for s in ch.CorrelatedNodes]
            e["mats"] = matrices(ch, parts) if e["held"] == num else []
        for r, bs, q in zip(out, bits, reqs):
            okb = set(r.c_bits) == set(bs) and len(r.c_bits) == len(bs)
            tab = [0] * (1 << q["d"])
            if okb:
                for w, v in r.get_counts(bs).items():
                    tab[int("".join(map(str, w)), 2)] += int(v)
                okb = all(float(v) == int(v) for v in r.get_counts().values())
            e["outs"].append(dict(bits=okb, tab=tab))
        e["outs"] += [dict(bits=False, tab=[])] * (len(out) - len(reqs))
        pre, preset = "none", []
    return dict(ev=evs)


def num_nodes(num, nodes):
    return [[nodes[j - 1] for j in s] for s in num]
