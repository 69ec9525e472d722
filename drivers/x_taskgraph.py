"""Executes TaskGraph scenarios on the real code. Data values are integers
interned from the term (task, port, arguments) that produced them, so equal
values mean equal provenance."""
from qermit import MitTask, TaskGraph


class World:
    def __init__(self, tasks):
        self.intern = {}
        self.calls = []
        self.tasks = {}
        self.writes = {}
        for t, ni, no, writes in tasks:
            self.tasks[t] = self.mk(t, ni, no, writes)
        self.graphs = {}
        self.ev = []

    def val(self, key):
        return self.intern.setdefault(key, 5000 + len(self.intern))

    def mk(self, name, ni, no, writes):
        w = self

        def method(obj, *args):
            seen = sorted([k, v] for k, v in obj.characterisation.items())
            outs = tuple(w.val((name, p, tuple(args))) for p in range(no))
            wrote = []
            for k, v in writes:
                obj.characterisation[k] = v
                wrote.append([k, v])
            w.calls.append(dict(op="call", t=name, args=list(args), outs=list(outs), seen=seen, wrote=wrote))
            return outs

        return MitTask(_label=name, _n_in_wires=ni, _n_out_wires=no, _method=method)

    def obs(self, ev, g):
        o = []
        for n, gr in self.graphs.items():
            ts = gr.tasks
            o.append(dict(g=n, nin=gr.n_in_wires, nout=gr.n_out_wires,
                          labels=[str(getattr(t, "label", t)) for t in ts],
                          nested=sum(isinstance(t, TaskGraph) for t in ts),
                          char=sorted([k, v] for k, v in gr.get_characterisation().items())))
        ev["g"] = g
        ev["obs"] = o
        ev["tobs"] = [dict(t=n, label=t.label, char=sorted([k, v] for k, v in t.characterisation.items()))
                      for n, t in self.tasks.items()]
        self.ev.append(ev)

    def step(self, op):
        k = op[0]
        if k == "new":
            self.graphs[op[1]] = TaskGraph(_label=op[1])
            self.obs(dict(op="new"), op[1])
        elif k in ("append", "prepend", "parallel"):
            g, c, ck = op[1:4]
            comp = self.tasks[c] if ck == "task" else self.graphs[c]
            ok, exc = True, ""
            try:
                getattr(self.graphs[g], k)(comp)
            except Exception as e:  # noqa
                ok, exc = False, type(e).__name__
            self.obs(dict(op=k, c=c, ck=ck, ok=ok, exc=exc), g)
        elif k == "wires":
            if op[2] == 1:
                self.graphs[op[1]].add_wire()
            else:
                self.graphs[op[1]].add_n_wires(op[2])
            self.obs(dict(op="wires", n=op[2]), op[1])
        elif k == "copy":
            self.graphs[op[1]] = TaskGraph().from_TaskGraph(self.graphs[op[2]])
            self.obs(dict(op="copy", **{"from": op[2]}), op[1])
        elif k == "decompose":
            ok, exc = True, ""
            try:
                self.graphs[op[1]].decompose_TaskGraph_nodes()
            except Exception as e:  # noqa
                ok, exc = False, type(e).__name__
            self.obs(dict(op="decompose", ok=ok, exc=exc), op[1])
        elif k == "setchar":
            self.graphs[op[1]].set_characterisation(dict(map(tuple, op[2])))
            self.obs(dict(op="setchar", kv=op[2]), op[1])
        elif k == "updchar":
            self.graphs[op[1]].update_characterisation(dict(map(tuple, op[2])))
            self.obs(dict(op="updchar", kv=op[2]), op[1])
        elif k == "taskchar":
            self.tasks[op[1]].characterisation = dict(map(tuple, op[2]))
            self.obs(dict(op="taskchar", t=op[1], kv=op[2]), "-")
        elif k == "run":
            self.run(*op[1:])
        else:
            raise ValueError(k)

    def run(self, g, base, cache, char, how="run"):
        gr = self.graphs[g]
        ins = [base + i for i in range(gr.n_in_wires)]
        labels = [str(getattr(t, "label", t)) for t in gr.tasks]
        self.ev.append(dict(op="begin", g=g, ins=ins, cache=cache, char=char, labels=labels))
        self.calls.clear()
        ok, exc, outs = True, "", []
        kw = {}
        if char:
            kw["characterisation"] = dict(map(tuple, char))
        try:
            if how == "call" and not cache and not char:
                res = gr(list(ins))
            else:
                res = gr.run(list(ins), cache=cache, **kw)
            outs = [(-2 if o is None else o) for o in res]
        except Exception as e:  # noqa
            ok, exc = False, type(e).__name__
        calls = list(self.calls)
        self.ev.extend(calls)
        self.ev.append(dict(op="end", g=g, ok=ok, exc=exc, outs=outs,
                            callouts=[c["outs"] for c in calls],
                            cacheafter=[[k, list(v[1])] for k, v in gr.get_cache().items()],
                            charafter=sorted([k, v] for k, v in gr.get_characterisation().items())))


def execute(p):
    w = World(p["tasks"])
    for op in p["ops"]:
        w.step(op)
    return dict(tasks=[t[:3] for t in p["tasks"]], ev=w.ev)
