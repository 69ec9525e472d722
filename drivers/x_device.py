"""Mock devices with noise (B32)."""
import random, warnings
from pytket import Bit, Circuit, Qubit
from drivers.circ import unitary_part
from drivers.mocks import branches
from drivers.x_scheme import clifford

L = {"I": 0, "X": 1, "Y": 2, "Z": 3}


def model(p):
    from qermit.noise_model.noisy_aer_backend import NoisyAerBackend
    rng = random.Random(p["seed"])
    n = rng.randint(1, 5)
    p1, p2, pr = [rng.choice([0, 1, rng.randint(0, 40)]) for _ in range(3)]
    e = dict(op="model", ok=True, n=n, p1=p1, p2=p2, pr=pr, errs=[], read=[], exc="")
    try:
        b = NoisyAerBackend(n, p1 / 100, p2 / 100, pr / 100)
        nm = b.depolarizing_noise_model(n, p1 / 100, p2 / 100, pr / 100)
        for d in nm.to_dict()["errors"]:
            qs = d.get("gate_qubits")
            for q in qs:
                if d["type"] == "roerror":
                    e["read"].append(dict(q=q[0] + 1, m=[[round(100 * x) for x in row] for row in d["probabilities"]]))
                    continue
                k = len(q)
                tot = {}
                for ins, w in zip(d["instructions"], d["probabilities"]):
                    l = [0] * k
                    for i in ins:
                        if i["name"] == "pauli":
                            # the last letter is the first qubit
                            for j, x in zip(i["qubits"], reversed(i["params"][0])):
                                l[j] = L[x]
                        elif i["name"] in ("x", "y", "z"):
                            l[i["qubits"][0]] = L[i["name"].upper()]
                        elif i["name"] not in ("id", "I"):
                            l[0] = 9
                    tot[tuple(l)] = tot.get(tuple(l), 0) + w
                for op in d["operations"]:
                    e["errs"].append(dict(g=op, q=[x + 1 for x in q], ps=[[list(l), round(1600 * w)] for l, w in tot.items()]))
    except Exception as x:  # noqa
        e.update(ok=False, exc=repr(x)[:300])
    return dict(ev=[e])


def runs(p):
    import qermit.noise_model.mock_quantinuum_backend as mod
    from qermit.noise_model.noisy_aer_backend import NoisyAerBackend
    warnings.simplefilter("ignore")
    rng = random.Random(p["seed"])
    flip = rng.random() < .5
    mock = rng.random() < .6
    known = True
    if mock:
        made, orig = [], mod.NoisyAerBackend

        class Quiet(orig):
            def __init__(self, *a, **k):
                made.append(1)
                super().__init__(10, 0, 0, 1 if flip else 0)
        mod.NoisyAerBackend = Quiet
        try:
            be = mod.MockQuantinuumBackend()
        finally:
            mod.NoisyAerBackend = orig
        known = bool(made)
    else:
        be = NoisyAerBackend(4, 0, 0, 1 if flip else 0)
    ev, handles, bits = [], [], []

    def job():
        while True:
            n = rng.randint(1, 4)
            reg = rng.choice(["q", "q", "a"])
            qs = [Qubit(reg, x) for x in range(n)]
            c = clifford(rng, n, qs, 8)
            g = unitary_part(c, qs)
            m = rng.randint(1, n)
            k = rng.randint(0, m)
            bl = [Bit("c", x) for x in range(k)] + [Bit("z", x) for x in range(m - k)]
            rng.shuffle(bl)
            for b in bl:
                c.add_bit(b)
            mq = rng.sample(qs, m)
            used = rng.sample(bl, m)
            for q, b in zip(mq, used):
                c.Measure(q, b)
            if len(branches(c)) == 1:
                break
        frm = {b: qs.index(q) + 1 for q, b in zip(mq, used)}
        bl = sorted(bl)
        cc = be.get_compiled_circuit(c, optimisation_level=rng.choice([0, 1, 2]))
        sh = rng.randint(1, 25)
        return cc, bl, dict(n=n, gs=[dict(g=x["g"], q=x["q"], a=x["a"]) for x in g], **{"from": [frm.get(b, 0) for b in bl]}, shots=sh)

    def table(res, bl):
        ok = set(res.c_bits) == set(bl)
        return ok, sorted([list(map(int, w)), int(v)] for w, v in res.get_counts(bl).items()) if ok else []

    for _ in range(rng.randint(1, 4)):
        js = [job() for _ in range(rng.randint(0 if mock else 1, 3))]
        before = [c.copy() for c, _, _ in js]
        how = rng.choice(["one", "list", "same"])
        e = dict(op="submit", ok=True, k=len(js), jobs=[j[2] for j in js], same=True, fresh=True, exc="")
        if how == "same":
            for j in js:
                j[2]["shots"] = js[0][2]["shots"]
        try:
            if how == "one":
                hs = [be.process_circuit(c, j["shots"]) for c, _, j in js]
            elif how == "list":
                hs = be.process_circuits([c for c, _, _ in js], [j["shots"] for _, _, j in js])
            else:
                hs = be.process_circuits([c for c, _, _ in js], js[0][2]["shots"] if js else 3)
            e["k"] = len(hs)
            e["fresh"] = len(set(hs) | set(handles)) == len(hs) + len(handles)
            handles += hs
            bits += [j[1] for j in js]
        except Exception as x:  # noqa
            e.update(ok=False, exc=repr(x)[:300])
        e["same"] = before == [c for c, _, _ in js]
        ev.append(e)
        if not e["ok"] or not e["fresh"] or len(handles) != len(bits):
            return dict(ev=ev)
        for _ in range(rng.randint(0, 4)):
            if not handles:
                break
            ks = [rng.randrange(len(handles)) for _ in range(rng.choice([1, 1, 3]))]
            how = rng.choice(["one", "one", "many", "timeout"])
            if how == "many":
                ks = list(dict.fromkeys(ks))
            out, exc = [], ""
            try:
                if how == "many":
                    out = be.get_results([handles[k] for k in ks])
                elif how == "timeout":
                    out = [be.get_result(handles[k], timeout=60) for k in ks]
                else:
                    out = [be.get_result(handles[k]) for k in ks]
            except Exception as x:  # noqa
                exc = repr(x)[:300]
            for j, k in enumerate(ks):
                r = dict(op="read", h=k + 1, ok=j < len(out), flip=flip, known=known, bits=False, c=[], exc=exc)
                if j < len(out):
                    r["bits"], r["c"] = table(out[j], bits[k])
                ev.append(r)
    return dict(ev=ev)
