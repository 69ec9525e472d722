import json, random
from collections import Counter
import numpy as np
from pytket import Bit, Circuit, OpType, Qubit
from pytket.circuit import Op
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
from qermit.noise_model.noise_model import Direction, ErrorDistribution, LogicalErrorDistribution, NoiseModel
from qermit.noise_model.qermit_pauli import QermitPauli
from qermit.noise_model.pauli_error_transpile import PauliErrorTranspile
from drivers.circ import perm_swaps, UNIT, gates, unitary_part
from drivers.x_meas import PS, qnames

PH = {1 + 0j: 0, 1j: 1, -1 + 0j: 2, -1j: 3}
CO = [1 + 0j, 1j, -1 + 0j, -1j]


def tensor(p, qs):
    return QubitPauliTensor(string=QubitPauliString({q: PS[l] for q, l in zip(qs, p["l"])}), coeff=CO[p["ph"]])


def obs(qp, qs):
    t = qp.qubit_pauli_tensor
    return dict(ph=PH[complex(t.coeff)], l=[int(t.string[q]) for q in qs])


def angle(rng, a):
    x = a / UNIT
    k = rng.randint(0, 3)
    if k == 0:
        return x + 0.3 - 0.3
    if k == 1:
        return (x + 1.8) - 1.8
    if k == 2:
        return x + 2 * rng.randint(-1, 1)
    return x


def op_of(rng, g):
    return Op.create(getattr(OpType, g["g"]), [angle(rng, a) for a in g["a"]]) if g["a"] else Op.create(getattr(OpType, g["g"]))


def rgate(rng, n, wild=True):
    k = rng.random()
    q1 = [rng.randint(1, n)]
    if k < .35 or n == 1 and k < .6:
        return dict(g=rng.choice(["X", "Y", "Z", "S", "Sdg", "V", "Vdg", "SX", "SXdg", "H"]), q=q1, a=[])
    if k < .6:
        return dict(g=rng.choice(["CX", "CY", "CZ", "SWAP", "ZZMax", "ECR", "ISWAPMax"]), q=rng.sample(range(1, n + 1), 2), a=[])
    if k < .64 and n > 2:
        return dict(g="BRIDGE", q=rng.sample(range(1, n + 1), 3), a=[])
    qt = UNIT // 2
    if k < .85 or not wild:
        c = rng.choice(["Rz", "Rx", "PhasedX", "ZZPhase"] if n > 1 else ["Rz", "Rx", "PhasedX"])
        return dict(g=c, q=rng.sample(range(1, n + 1), 2) if c == "ZZPhase" else q1,
                    a=[qt * rng.randint(-3, 6) for _ in range(2 if c == "PhasedX" else 1)])
    c = rng.choice(["Rz", "Rx", "Ry", "T", "PhasedX", "ZZPhase", "Ry", "U3"] if n > 1 else ["Rz", "Rx", "Ry", "T", "U3"])
    na = dict(T=0, PhasedX=2, U3=3).get(c, 1)
    return dict(g=c, q=rng.sample(range(1, n + 1), 2) if c == "ZZPhase" else q1,
                a=[rng.choice([qt * rng.randint(-3, 6), 8 * rng.randint(1, 900)]) for _ in range(na)])


def pauli(p):
    rng = random.Random(p["seed"])
    n = p["n"]
    qs = qnames(rng, n)
    rng.shuffle(qs)
    p0 = p.get("p") or dict(ph=rng.randint(0, 3), l=[rng.randint(0, 3) for _ in range(n)])
    x = QermitPauli(tensor(p0, qs))
    ev = [dict(op="pauli", n=n, k="new", p=p0, ok=True, same=True, obs=obs(x, qs))]
    ops = list(p.get("ops", []))
    extra = 0
    if not ops:
        for _ in range(p["nops"]):
            k = rng.choice(["gate", "gate", "gate", "circuit", "circuit", "pre", "post", "dagger", "reduce"])
            if k == "gate":
                ops.append(dict(k=k, gs=[rgate(rng, n)]))
            elif k == "circuit":
                ops.append(dict(k=k, gs=[rgate(rng, n, rng.random() < .1) for _ in range(rng.randint(0, 8))]))
            elif k in ("pre", "post"):
                ops.append(dict(k=k, q=[rng.randint(1, n)], l=[rng.randint(0, 3)]))
            elif k == "dagger":
                ops.append(dict(k=k))
            else:
                ops.append(dict(k=k, q=sorted(rng.sample(range(1, n + 1), rng.randint(0, n)))))
    for o in ops:
        e = dict(op="pauli", n=n, ok=True, same=True, **o)
        before = obs(x, qs)
        old = x
        if o["k"] == "gate":
            g = o["gs"][0]
            try:
                x.apply_gate(op=op_of(rng, g), qubits=[qs[j - 1] for j in g["q"]])
            except Exception:
                e["ok"] = False
        elif o["k"] == "circuit":
            c = Circuit()
            for q in sorted(qs):
                c.add_qubit(q)
            for g in o["gs"]:
                c.add_gate(op_of(rng, g), [qs[j - 1] for j in g["q"]])
                if rng.random() < .1:
                    c.add_barrier(rng.sample(qs, rng.randint(1, n)))
            if rng.random() < .4:
                c.replace_SWAPs()
            d = c.to_dict()
            try:
                x.apply_circuit(c)
            except Exception:
                e["ok"] = False
            e["same"] = d == c.to_dict()
        elif o["k"] in ("pre", "post"):
            getattr(x, o["k"] + "_apply_pauli")(pauli=PS[o["l"][0]], qubit=qs[o["q"][0] - 1])
        elif o["k"] == "dagger":
            x = x.dagger
            e["same"] = obs(old, qs) == before
        elif o["k"] == "reduce":
            x = x.reduce_qubits([qs[j - 1] for j in o["q"]])
            e["same"] = obs(old, qs) == before
            e["obs"] = obs(x, qs)
            # reducing gives a Pauli which cannot act on the qubits removed
            if o["q"]:
                full = QermitPauli(tensor(e["obs"], qs))
                e["same"] = e["same"] and full == x
                x = full
        e["obs"] = obs(x, qs)
        ev.append(e)
        if not e["ok"] and o["k"] == "circuit":
            break
        k = rng.choice(["", "measurable", "eq", "gates", "control"])
        o_ = obs(x, qs)
        e = dict(op="pauli", n=n, k=k, ok=True)
        if k == "measurable":
            e["q"] = sorted(rng.sample(range(1, n + 1), rng.randint(0, n)))
            e["v"] = bool(x.is_measureable([qs[j - 1] for j in e["q"]]))
        elif k == "eq":
            q = json.loads(json.dumps(o_))
            c = rng.random()
            if c < .3:
                q["ph"] = (q["ph"] + rng.randint(1, 3)) % 4
            elif c < .6:
                j = rng.randrange(n)
                q["l"][j] = (q["l"][j] + rng.randint(0, 3)) % 4
            if rng.random() < .5:
                # the same operator without identities spelled out
                y = QermitPauli(QubitPauliTensor(string=QubitPauliString({a: PS[l] for a, l in zip(qs, q["l"]) if l}), coeff=CO[q["ph"]]))
            else:
                y = QermitPauli(tensor(q, qs))
            e.update(p=q, v=bool(x == y), h=hash(x) == hash(y))
        elif k == "gates":
            c = x.circuit
            e.update(gs=unitary_part(c, qs), phase=int(round(float(c.phase) * 2)) % 4)
            assert abs(float(c.phase) * 2 - round(float(c.phase) * 2)) < 1e-9
        elif k == "control":
            cq = Qubit("ctrl", 7)
            c = x.get_control_circuit(cq)
            e.update(gs=unitary_part(c, qs + [cq]))
        if k:
            e.update(obs=obs(x, qs), same=obs(x, qs) == o_)
            ev.append(e)
    return dict(ev=ev)


# ---------------------------------------------------------- distributions --
def num(v, D):
    v = complex(v)
    if abs(v.imag) > 1e-9:
        return -99999
    r = round(v.real * D)
    return r if abs(v.real * D - r) < 1e-4 * max(1, D / 100) else -77777


def dump(d, n, D):
    return dict(n=n, D=D, r=[[[int(x) for x in k], num(v, D)] for k, v in d.distribution.items()])


def make(x, rng_):
    dd = {tuple(PS[l] for l in k): v / x["D"] for k, v in x["r"]}
    return ErrorDistribution(dd, rng=rng_)


def rdist(rng, n, D, over=False, ident=False):
    keys = []
    for _ in range(rng.randint(0 if rng.random() < .1 else 1, 4)):
        l = [rng.randint(0, 3) for _ in range(n)]
        if l not in keys and (any(l) or ident):
            keys.append(l)
    left = D
    r = []
    for j, k in enumerate(keys):
        v = rng.randint(0 if rng.random() < .1 else min(1, left), left if rng.random() < .4 else max(min(left, 1), left // 2))
        left -= v
        r.append([k, v])
    if over and r:
        r[rng.randrange(len(r))][1] += left + rng.randint(1, 3)
    return dict(n=n, D=D, r=r)


def dist(p):
    rng = random.Random(p["seed"])
    nrng = np.random.default_rng(p["seed"])
    pool, meta, ev = {}, {}, []
    cnt = 0
    D0 = rng.choice([4, 10, 20])
    n0 = rng.choice([1, 1, 2])
    for _ in range(p["nops"]):
        cnt += 1
        k = rng.choice(["new", "new", "mix", "mix", "scale", "copy", "order", "sample", "frac"]) if pool else "new"
        out = f"d{cnt}"
        e = dict(op="dist", k=k, args=[], out=out, ok=True, eq=True, rev=True, counts=[], N=0, by=0)
        snap = {m: json.dumps(dump(d, *meta[m])) for m, d in pool.items()}
        res, n, D = None, n0, D0
        if k == "new":
            e["def"] = rdist(rng, n0, D0, over=rng.random() < .15, ident=rng.random() < .2)
            try:
                res = make(e["def"], nrng)
            except Exception:
                e["ok"] = False
            if e["ok"] and rng.random() < .1 and e["def"]["r"]:
                bad = dict(res.distribution)
                bad[tuple([Pauli.X] * (n0 + 1))] = 0.0
                try:
                    ErrorDistribution(bad)
                    e["ok"] = False
                except Exception:
                    pass
        elif k == "mix":
            a0 = rng.choice(sorted(pool))
            n, D = meta[a0]
            same = [m for m in sorted(pool) if meta[m] == (n, D)]
            args = [rng.choice(same) for _ in range(rng.randint(1, 3))]
            if D * len(args) > 60:
                continue
            e["args"] = args
            D = D * len(args)
            res = ErrorDistribution.mixture([pool[m] for m in args])
        elif k == "scale":
            a0 = rng.choice(sorted(pool))
            n, D = meta[a0]
            by = rng.randint(0, 3)
            if D ** by > 8000 or (n == 2 and D ** by > 1000):
                by = 1
            if D ** by > 8000:
                continue
            e.update(args=[a0], by=by)
            if rng.random() < .3:
                res = NoiseModel({OpType.H: pool[a0]}).scale(by).noise_model[OpType.H]
            else:
                res = pool[a0].scale(by)
            D = D ** by
        elif k == "frac":
            # channels with a root: one Pauli, or all alike
            f = rng.choice([.5, 1.5, 2.5, 1.25])
            w = rng.randint(1, 9)
            keys = [[1], [2], [3]] if rng.random() < .5 else [[rng.randint(1, 3)]]
            d = make(dict(D=40 * len(keys), r=[[x, w] for x in keys]), nrng)
            mm = lambda dd: [[[int(x) for x in kk], num(v, 10**6)] for kk, v in dd.distribution.items()]
            mm = lambda dd: [[[int(x) for x in kk], int(round(complex(v).real * 10**6))] for kk, v in dd.distribution.items()]
            ev.append(dict(op="frac", ok=True, one=mm(d.scale(f).scale(2)), two=mm(d.scale(2 * f)), unit=mm(d.scale(1)), r=mm(d)))
            continue
        else:
            a0 = rng.choice(sorted(pool))
            e["args"] = [a0]
            n, D = meta[a0]
            d = pool[a0]
            if k == "copy":
                if rng.random() < .5:
                    res = ErrorDistribution.from_dict(json.loads(json.dumps(d.to_dict())))
                    e["eq"] = bool(res == d) and bool(d == res)
                else:
                    m = NoiseModel({OpType.CX: d, OpType.H: d})
                    m2 = NoiseModel.from_dict(json.loads(json.dumps(m.to_dict())))
                    res = m2.noise_model[rng.choice([OpType.H, OpType.CX])]
                    e["eq"] = bool(m == m2) and sorted(x.name for x in m2.noisy_gates) == ["CX", "H"]
            elif k == "order":
                e["rev"] = rng.random() < .5
                d.order(reverse=e["rev"])
                res, e["out"] = d, a0
                snap.pop(a0)
            elif k == "sample":
                if D > 100:
                    continue
                d.reset_rng(np.random.default_rng(rng.randint(0, 10**9)))
                e["N"] = 100
                e["counts"] = [[[int(x) for x in kk] if kk is not None else [], v] for kk, v in sorted(Counter(d.sample() for _ in range(100)).items(), key=str)]
                res, e["out"] = d, a0
        if e["ok"]:
            e["obs"] = dump(res, n, D)
            e["free"] = num(res.identity_error_rate, D)
            e["eqs"] = [dict(name=m, v=bool(res == d)) for m, d in pool.items() if meta[m][0] == n and m != e["out"] and coarse(d) and coarse(res)][:4]
            if res.distribution and D <= 400 and rng.random() < .5:
                ptm, idx = res.to_ptm()
                assert np.allclose(ptm, np.diag(np.diag(ptm)))
                e["ptm"] = [[[int(x) for x in kk], num(ptm[j][j], D)] for kk, j in idx.items()]
                back = ErrorDistribution.from_ptm(ptm, idx)
                e["back"] = dump(back, n, D)
            pool[e["out"]] = res
            meta[e["out"]] = (n, D)
        else:
            e.update(obs=dict(n=n, D=D, r=[]), free=0, eqs=[])
        e["frame"] = all(json.dumps(dump(pool[m], *meta[m])) == s for m, s in snap.items())
        ev.append(e)
    return dict(ev=ev or [dict(op="frac", ok=True, one=[], two=[], unit=[], r=[])])


def coarse(d):
    """equality is only to within one per cent"""
    return all(abs(v * 20 - round(v * 20)) < 1e-9 or abs(v * 12 - round(v * 12)) < 1e-9 or abs(v * 30 - round(v * 30)) < 1e-9 for v in d.distribution.values()) \
        and all(v > 1e-9 for v in d.distribution.values())


def lobs(L, qs):
    return dict(total=int(L.total), c=[[obs2(k, qs), int(v)] for k, v in L.pauli_error_counter.items()])


def obs2(qp, qs):
    t = qp.qubit_pauli_tensor
    return dict(ph=PH[complex(t.coeff)], l=[int(t.string.map.get(q, Pauli.I)) for q in qs])


def logical(p):
    rng = random.Random(p["seed"])
    n = rng.randint(1, 4)
    qs = qnames(rng, n)
    c = {}
    for _ in range(rng.randint(0, 8)):
        l = [rng.choice([0, 0, 1, 2, 3]) for _ in range(n)]
        c[(rng.choice([0, 0, 2, 1, 3]), tuple(l))] = rng.randint(1, 9)
    cnt = Counter({QermitPauli(tensor(dict(ph=a, l=list(l)), qs)): v for (a, l), v in c.items()})
    tot = sum(c.values()) + rng.randint(0, 5)
    ev, pool = [], {}

    def rec(L, k, out, args, sel, d=None):
        ev.append(dict(op="logical", k=k, out=out, args=args, qs=sel, obs=lobs(L, qs), **({"def": d} if d else {}),
                       rates=[[[int(s.map.get(q, Pauli.I)) for q in qs], num(v * L.total, 1)] for s, v in L.distribution.items()],
                       frame=all(json.dumps(lobs(x, qs)) == s for x, s in snap)))
        pool[out] = (L, [j for j in rng_left(args, sel)])

    def rng_left(args, sel):
        base = pool[args[0]][1] if args else list(range(1, n + 1))
        return [j for j in base if j not in sel]
    snap = []
    if rng.random() < .3:
        L = LogicalErrorDistribution(cnt)
        tot = sum(c.values())
    else:
        L = LogicalErrorDistribution(cnt, total=tot)
    rec(L, "new", "l0", [], [], dict(total=tot, c=[[dict(ph=a, l=list(l)), v] for (a, l), v in c.items()]))
    for k in range(rng.randint(1, 4)):
        a = rng.choice(sorted(pool))
        L, left = pool[a]
        if not left:
            continue
        sel = sorted(rng.sample(left, rng.randint(0, len(left))))
        snap = [(x, json.dumps(lobs(x, qs))) for x, _ in pool.values()]
        rec(L.post_select([qs[j - 1] for j in sel]), "post", f"l{k+1}", [a], sel)
    return dict(ev=ev)


# ---------------------------------------------------------------- circuits --
NAMES = {"H": 1, "S": 1, "CX": 2, "CZ": 2, "X": 1, "ZZMax": 2, "Rz": 1, "ZZPhase": 2, "PhasedX": 1}


def rmodel(rng, certain, count=False):
    m = {}
    for g in rng.sample(sorted(NAMES), rng.randint(1, 4)):
        n = NAMES[g]
        D = 1 if certain else (rng.choice([2, 4]) if count else rng.choice([2, 4, 10]))
        if certain:
            m[g] = dict(n=n, D=1, r=[[[rng.randint(0, 3) for _ in range(n)], 1]])
        else:
            while True:
                d = rdist(rng, n, D, ident=rng.random() < .2)
                if d["r"] and len([x for x in d["r"] if x[1]]) <= 3:
                    break
            m[g] = d
    return m


def rcirc(rng, n, m, maxchoice, maxparts):
    """gates with a bounded number of error assignments"""
    gs, choice, parts = [], 1, 1
    for _ in range(rng.randint(1, 9)):
        g = rgate(rng, n, False) if rng.random() < .4 else None
        if g and g["g"] == "ISWAPMax":    # its inverse is not a gate QermitPauli knows
            continue
        if g is None:
            x = rng.choice(sorted(m) if rng.random() < .6 else sorted(NAMES))
            if NAMES[x] > n:
                continue
            g = dict(g=x, q=rng.sample(range(1, n + 1), NAMES[x]), a=[UNIT // 2 * rng.randint(-1, 4) for _ in range({"Rz": 1, "ZZPhase": 1, "PhasedX": 2}.get(x, 0))])
        if g["g"] in m:
            d = m[g["g"]]
            k = len([x for x in d["r"] if x[1]]) + 1
            if choice * k > maxchoice or parts * d["D"] > maxparts:
                continue
            choice *= k
            parts *= d["D"]
        gs.append(g)
    return gs


def build(rng, gs, qs, extra=False):
    c = Circuit()
    for q in sorted(qs):
        c.add_qubit(q)
    for g in gs:
        c.add_gate(op_of(rng, g), [qs[j - 1] for j in g["q"]])
        if extra and rng.random() < .15:
            c.add_barrier(rng.sample(qs, rng.randint(1, len(qs))))
    return c


def nmodel(m, nrng):
    return NoiseModel({OpType.from_name(g): make(d, nrng) for g, d in m.items()})


def prop(p):
    rng = random.Random(p["seed"])
    nrng = np.random.default_rng(p["seed"])
    n = rng.randint(1, 4)
    qs = qnames(rng, n)
    count = rng.random() < .4
    m = rmodel(rng, rng.random() < .4, count)
    gs = rcirc(rng, n, m, 40, 64 if count else 10**6)
    c = build(rng, gs, qs, True)
    if "SWAP" not in m and rng.random() < .5:
        c.replace_SWAPs()
        gs = [g for g in record(c, qs) if g["g"] != "Barrier"]
    nm = nmodel(m, nrng)
    fwd = rng.random() < .5
    dire = Direction.forward if fwd else Direction.backward
    if rng.random() < .3 and not count:
        for j, q in enumerate(c.qubits):
            b = Bit("r", j)
            c.add_bit(b)
            c.Measure(q, b)
    d0 = c.to_dict()
    e = dict(op="prop", n=n, gs=[dict(g, b=[]) for g in gs], m=[[g, d] for g, d in m.items()])
    if count:
        N = 100
        if rng.random() < .5:
            cnt = nm.counter_propagate(c, N, direction=dire)
            tot = N
        else:
            fwd = False
            L = nm.get_effective_pre_error_distribution(c, n_rand=N)
            cnt, tot = L.pauli_error_counter, L.total
        e.update(k="count", fwd=fwd, N=N, total=int(tot), counts=[[obs2(x, qs), int(v)] for x, v in cnt.items()])
    else:
        if not fwd and rng.random() < .3:
            outs = [nm.random_propagate(c) for _ in range(4)]
        else:
            outs = [nm.random_propagate(c, dire) for _ in range(4)]
        e.update(k="one", fwd=fwd, outs=[obs2(x, qs) for x in outs])
    assert c.to_dict() == d0, "circuit modified"
    return dict(ev=[e])


def transpile(p):
    rng = random.Random(p["seed"])
    nrng = np.random.default_rng(p["seed"])
    n = rng.randint(1, 3)
    qs = qnames(rng, n)
    if rng.random() < .3:
        qs = [Qubit("a", 2 * j + 1) if j % 2 else Qubit("b", j) for j in range(n)]
    qs = sorted(qs)
    m = rmodel(rng, rng.random() < .3, True)
    gs = rcirc(rng, n, m, 30, 64)
    bits = [Bit("c", j) for j in range(n)] if rng.random() < .5 else [Bit("k", 2 * j + 1) for j in range(n)]
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for b in bits:
        c.add_bit(b)
    phase = rng.choice([0, .25, 1])
    c.add_phase(phase)
    for g in gs:
        c.add_gate(op_of(rng, g), [qs[j - 1] for j in g["q"]])
        k = rng.random()
        if k < .1:
            c.add_barrier(rng.sample(qs, rng.randint(1, n)) + rng.sample(bits, rng.randint(0, n)))
        elif k < .2:
            c.Measure(rng.choice(qs), rng.choice(bits))
        elif k < .25:
            c.X(rng.choice(qs), condition_bits=[rng.choice(bits)], condition_value=1)
        elif k < .3:
            c.Reset(rng.choice(qs))
    if "SWAP" not in m and rng.random() < .4:
        c.replace_SWAPs()
    rec0 = record(c, qs)
    nm = nmodel(m, nrng)
    ok, exc, cnt, units = True, "", Counter(), True
    try:
        ps = PauliErrorTranspile(nm)
        for _ in range(30):
            d = c.copy()
            ps.apply(d)
            cnt[json.dumps(record(d, qs))] += 1
            units = units and d.qubits == c.qubits and d.bits == c.bits and d.phase == c.phase
    except Exception as x:  # noqa
        ok, exc = False, repr(x)[:300]
    return dict(ev=[dict(op="transpile", n=n, gs=rec0, m=[[g, d] for g, d in m.items()], outs=[[json.loads(k), v] for k, v in sorted(cnt.items())],
                         ok=ok, exc=exc, units=units)])


def record(c, qs):
    qi = {q: j + 1 for j, q in enumerate(qs)}
    out = []
    for cmd in c.get_commands():
        name = cmd.op.type.name
        if name == "Conditional":
            name = f"IF {cmd.op.value} {cmd.op.op.type.name}"
        a = [] if "IF" in name or name in ("Barrier", "Measure") else [int(round(float(v) * UNIT)) % (2 * UNIT) for v in cmd.op.params]
        out.append(dict(g=name, q=[qi[q] for q in cmd.qubits], a=a, b=[str(b) for b in cmd.args if isinstance(b, Bit)]))
    return out + perm_swaps(c, qi)
