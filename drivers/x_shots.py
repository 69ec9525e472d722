import random
from collections import Counter
import numpy as np
from pytket import Bit, Circuit, Qubit, OpType
from pytket.backends.backendresult import BackendResult
from pytket.passes import CustomPass
from pytket.utils.outcomearray import OutcomeArray
from qermit import CircuitShots, MitRes
from drivers.mocks import DetBackend, branches, apportion


def rec(r, bits=None):
    """A BackendResult as the specification reads it, bit by name."""
    bits = list(r.get_bitlist()) if bits is None else bits
    return dict(bits=[str(b) for b in bits], c=sorted([list(map(int, k)), int(v)] for k, v in r.get_counts(bits).items()))


def rec0(r):
    """As rec, for results that may be empty."""
    try:
        return dict(none=False, r=rec(r))
    except Exception:
        return dict(none=True, r=dict(bits=[], c=[]))


def result(rng, bits, n, shots=True):
    rows = [[rng.randint(0, 1) for _ in bits] for _ in range(n)]
    if shots:
        return BackendResult(shots=OutcomeArray.from_readouts(np.array(rows, dtype=int).reshape(n, len(bits))), c_bits=bits)
    return BackendResult(counts=Counter(OutcomeArray.from_readouts([r]) for r in rows), c_bits=bits)


# ------------------------------------------------------------- splitting --
def split(p):
    from qermit.taskgraph.mitres import gen_shot_split_MitRes
    from qermit.taskgraph.mitex import gen_compiled_shot_split_MitRes
    rng = random.Random(p["seed"])
    jobs = []

    def ident(c):
        return next(round(float(x.op.params[0]) * 100) for x in c.get_commands() if x.op.type == OpType.Rz)

    def answer(c, s, k):
        bits = list(c.bits)
        if p["shuffle"]:
            rng.shuffle(bits)
        r = result(rng, bits, s)
        jobs.append(dict(c=ident(c), n=s, res=rec(r)))
        return r

    b = DetBackend(4, answer=answer)
    m = (gen_shot_split_MitRes if p["kind"] == "plain" else gen_compiled_shot_split_MitRes)(b, p["max"])
    reqs, circs = [], {}
    for cid, n, nb in p["req"]:
        if cid not in circs:
            c = Circuit(2, nb).Rz(cid / 100, 0)
            for j in range(nb):
                c.Measure(j % 2, j)
            circs[cid] = c
        c = circs[cid]
        reqs.append(dict(c=cid, n=n, bits=[str(x) for x in c.bits]))
    before = {k: c.to_dict() for k, c in circs.items()}
    wire = [CircuitShots(circs[cid], n) for cid, n, _ in p["req"]]
    given = list(wire)
    ok, exc, outs = True, "", []
    try:
        outs = [rec(r) for r in m.run(wire)]
    except Exception as e:  # noqa
        ok, exc = False, repr(e)[:300]
    return dict(ev=[dict(op="split", req=reqs, max=p["max"], jobs=jobs, outs=outs, ok=ok, exc=exc,
                         unmodified=wire == given and all(circs[k].to_dict() == before[k] for k in circs))])


# ------------------------------------------------- transpiler backend -----
def tb(p):
    from qermit.noise_model.transpiler_backend import TranspilerBackend
    ev = []
    nb = 7
    circs = []
    for k in range(len(p["ns"])):
        c = Circuit(nb)
        bits = [Bit(("c" if p["bits"] == "c" else "w"), j) for j in range(nb)]
        for x in bits:
            c.add_bit(x)
        c.Rz((k + 1) / 100, 0)
        for j in range(nb):
            c.Measure(Qubit(j), bits[j])
        circs.append(c)
    if p["same"]:
        circs = [circs[0]] * len(circs)
    orig = [c.to_dict() for c in circs]
    current = [None]
    count = [0]

    def stamp(c):
        count[0] += 1
        same = c.to_dict() == orig[current[0]] if current[0] is not None else any(c.to_dict() == o for o in orig)
        ev.append(dict(op="transpile", c=cur_id(c), same=bool(same)))
        n = count[0]
        new = Circuit(nb)
        for x in c.bits:
            new.add_bit(x)
        for j in range(nb):
            if (n >> (nb - 1 - j)) & 1:
                new.X(j)
        for cmd in c.get_commands():
            new.add_gate(cmd.op, cmd.args)
        return new

    def cur_id(c):
        # the request this transpilation belongs to
        return current[0] + 1

    if p.get("prior"):
        TranspilerBackend(CustomPass(lambda c: c)).run_circuit(circs[0], 2)
    be = TranspilerBackend(CustomPass(stamp), max_batch_size=p["batch"], n_cores=p["cores"])
    bits = [str(b) for b in circs[0].bits]
    out = {}
    ok, exc = True, ""
    reads = []

    def read(i, r):
        reads.append(dict(op="read", id=i + 1, n=p["ns"][i], res=rec(r), bits=bits, ok=True, exc="",
                          unmodified=circs[i].to_dict() == orig[i]))
    try:
        if p["how"] == "circuits":
            # one call for all: attribute transpilations by the circuit stamped
            hs = []
            if p["same"] or len(circs) == 1 or p["split"]:
                for i, c in enumerate(circs):
                    current[0] = i
                    hs += be.process_circuits([c], n_shots=[p["ns"][i]])
            else:
                def cid(c):
                    return next((round(float(x.op.params[0]) * 100) for x in c.get_commands() if x.op.type == OpType.Rz), 0)
                cur_id = cid  # noqa
                def stamp2(c):
                    current[0] = cid(c) - 1 if 1 <= cid(c) <= len(circs) else None
                    if current[0] is None:
                        ev.append(dict(op="transpile", c=0, same=False))
                        count[0] += 1
                        return c
                    return stamp(c)
                be.transpiler = CustomPass(stamp2)
                cur_id = lambda c: current[0] + 1  # noqa
                hs = be.process_circuits(circs, n_shots=p["ns"])
            if p["split"]:
                for i in p["order"]:
                    read(i, be.get_result(hs[i]))
            else:
                rs = be.get_results([hs[i] for i in p["order"]])
                for i, r in zip(p["order"], rs):
                    read(i, r)
        elif p["how"] == "circuit":
            hs = {}
            for i in p["order"]:
                current[0] = i
                hs[i] = be.process_circuit(circs[i], p["ns"][i])
            for i in reversed(p["order"]):
                read(i, be.get_result(hs[i]))
        elif p["how"] == "run":
            for i in p["order"]:
                current[0] = i
                read(i, be.run_circuit(circs[i], p["ns"][i]))
        else:
            for i in p["order"]:
                current[0] = i
                cnt = be.get_counts(circs[i], p["ns"][i], circs[i].bits if p["split"] else None)
                reads.append(dict(op="read", id=i + 1, n=p["ns"][i], ok=True, exc="", bits=bits,
                                  res=dict(bits=bits, c=sorted([list(map(int, k)), int(v)] for k, v in cnt.items())),
                                  unmodified=circs[i].to_dict() == orig[i]))
    except Exception as e:  # noqa
        reads.append(dict(op="read", id=1, n=0, res=dict(bits=bits, c=[]), bits=bits, ok=False, exc=repr(e)[:300], unmodified=True))
    return dict(ev=ev + reads)


# ------------------------------------------------------- post-selection ---
def post(p):
    from qermit.postselection import PostselectMgr, gen_postselect_mitres
    from qermit.postselection.postselect_mitres import gen_postselect_task
    rng = random.Random(p["seed"])
    regs = ["c", "a", "z"]
    names = [Bit(rng.choice(regs), j) for j in range(p["nb"])]

    def pick(overlap=False):
        pool = list(names)
        rng.shuffle(pool)
        k = rng.randint(0, len(pool))
        comp, pst = pool[:k], pool[k:]
        if rng.random() < .3 and pst:
            pst = pst[: rng.randint(0, len(pst))]
        if rng.random() < .3 and len(comp) > 1:
            comp = comp[: rng.randint(1, len(comp))]
        return comp, pst
    if p["how"] == "overlap":
        comp, pst = pick()
        if rng.random() < .6 and comp:
            pst = pst + [rng.choice(comp)]
        ok = True
        try:
            PostselectMgr(compute_cbits=comp, postselect_cbits=pst)
        except Exception:
            ok = False
        return dict(ev=[dict(op="overlap", comp=[str(b) for b in comp], post=[str(b) for b in pst], ok=ok)])
    rs = []
    for _ in range(p["nres"]):
        bits = list(names)
        rng.shuffle(bits)
        n = rng.randint(1, 12)
        rows = [[int(rng.random() < p["dense"]) for _ in bits] for _ in range(n)]
        if rng.random() < .5:
            rs.append(BackendResult(shots=OutcomeArray.from_readouts(np.array(rows)), c_bits=bits))
        else:
            rs.append(BackendResult(counts=Counter(OutcomeArray.from_readouts([r]) for r in rows), c_bits=bits))
    ok, exc, outs, merged, mg = True, "", [], [], []
    try:
        if p["how"] == "mitres":
            comp, pst = pick()
            mg = [PostselectMgr(compute_cbits=comp, postselect_cbits=pst)] * len(rs)
            it = iter(rs)
            b = DetBackend(3, answer=lambda c, s, k: rs[k])
            m = gen_postselect_mitres(b, mg[0])
            res = m.run([CircuitShots(Circuit(1, 1).Measure(0, 0), 5) for _ in rs])
        else:
            cp = [pick() for _ in rs]
            mg = [PostselectMgr(compute_cbits=c, postselect_cbits=q) for c, q in cp]
            if p["how"] == "task":
                res = gen_postselect_task()([rs, mg])[0]
            else:
                res = [m.postselect_result(r) for m, r in zip(mg, rs)]
        outs = [rec0(r) for r in res]
        merged = [rec0(m.merge_result(r)) for m, r in zip(mg, rs)]
    except Exception as e:  # noqa
        ok, exc = False, repr(e)[:300]
    return dict(ev=[dict(op="post", ins=[dict(r=rec(r), comp=[str(b) for b in m.compute_cbits],
                                              post=[str(b) for b in m.postselect_cbits]) for r, m in zip(rs, mg)],
                         outs=outs, merged=merged, ok=ok, exc=exc)])


# ------------------------------------------------------------- leakage ----
def leak_circuit(rng, nmax):
    n = rng.randint(1, nmax)
    reg = rng.choice(["q", "node"])
    c = Circuit()
    qs = [Qubit(reg, j) for j in range(n)]
    for q in qs:
        c.add_qubit(q)
    nb = rng.randint(n, n + 1)
    bs = [Bit(rng.choice(["c", "c", "d"]), j) for j in range(nb)]
    for b in bs:
        c.add_bit(b)
    for _ in range(rng.randint(0, 6)):
        k = rng.randint(0, 5)
        q = rng.choice(qs)
        if k == 0:
            c.X(q)
        elif k == 1:
            c.H(q)
        elif k == 2 and n > 1:
            c.CX(*rng.sample(qs, 2))
        elif k == 3:
            c.add_barrier(rng.sample(qs, rng.randint(1, n)))
        elif k == 4:
            c.Rz(0.5, q)
        elif k == 5 and rng.random() < .4:
            c.Measure(q, rng.choice(bs))      # possibly mid-circuit
            c.X(q)
    free = list(bs)
    rng.shuffle(free)
    ends = rng.sample(qs, rng.randint(1, n))
    for q in ends:
        c.Measure(q, free.pop())
    return c, len(ends)


def leak(p):
    from qermit.leakage_detection import get_leakage_detection_mitres
    rng = random.Random(p["seed"])
    raw = []

    def answer(c, s, k):
        cnt = apportion(branches(c), s)
        new = Counter()
        bits = c.bits
        det = [j for j, x in enumerate(bits) if x.reg_name == "leakage_detection_bit"]
        for row, v in cnt.items():
            for _ in range(v):
                row2 = list(row)
                if p["leaky"]:
                    for j in det:
                        if rng.random() < .35:
                            row2[j] = 1
                new[tuple(row2)] += 1
        r = BackendResult(counts=Counter({OutcomeArray.from_readouts([b]): v for b, v in new.items()}), c_bits=bits)
        raw.append(dict(n=s, r=rec(r)))
        return r
    specs = []
    nq = 3
    for _ in range(p["nc"]):
        c, meas = leak_circuit(rng, nq)
        n = rng.randint(1, 16)
        specs.append((c, meas, n))
    b = DetBackend(nq + p["spare"], answer=answer)
    m = get_leakage_detection_mitres(b)
    circs = []
    for c, meas, n in specs:
        d = apportion(branches(c), n)
        circs.append(dict(bits=[str(x) for x in c.bits], n=n, measured=meas,
                          ideal=dict(bits=[str(x) for x in c.bits], c=sorted([list(k), v] for k, v in d.items()))))
    ok, exc, outs = True, "", []
    try:
        outs = [rec0(r) for r in m.run([CircuitShots(c, n) for c, _, n in specs])]
    except Exception as e:  # noqa
        ok, exc = False, repr(e)[:300]
    return dict(ev=[dict(op="leak", circs=circs, raw=raw, outs=outs, ok=ok, exc=exc, leaky=p["leaky"])])
