----------------------------- MODULE MeasTrace ------------------------------
(* Measurement circuits and whole MitEx runs.                                *)
EXTENDS TraceKit, Pauli, Results
S0(s) == 0

Unit(gs) == SelectSeq(gs, LAMBDA x : x.g # "Measure")
Meas(gs) == {k \in DOMAIN gs : gs[k].g = "Measure"}
QOf(gs, b) == gs[CHOOSE k \in Meas(gs) : gs[k].b[1] = b].q[1]
MBits(gs) == {gs[k].b[1] : k \in Meas(gs)}
MQubits(gs) == {gs[k].q[1] : k \in Meas(gs)}
Final(gs) == \A k \in Meas(gs) : \A j \in (k+1)..Len(gs) : gs[j].g \in {"Barrier"} \/ gs[k].q[1] \notin ToSet(gs[j].q)
ZOn(n, qs) == [ph |-> 0, l |-> [q \in 1..n |-> IF q \in qs THEN 3 ELSE 0]]
Plain(l) == [ph |-> 0, l |-> l]
Neg(p, v) == IF v THEN Times(p, 2) ELSE p

(* --- circuits registered with a tracker ----------------------------------- *)
\* E.n, E.ansatz, E.strs [letters], E.given [[string, id, bits, invert]], E.circs [[id, gates]],
\* E.regs [[string, id, bits, invert]]
OwnRegs(j) == {k \in DOMAIN E.regs : E.regs[k].s = j}
CircOf(id) == E.circs[CHOOSE k \in DOMAIN E.circs : E.circs[k].id = id].gates
Given(r) == \E k \in DOMAIN E.given : E.given[k] = r
Fresh == {k \in DOMAIN E.regs : ~Given(E.regs[k])}
Register == /\ Is("register") /\ UNCHANGED st
   /\ LET u == NF(E.n, E.ansatz)
          nf == [k \in DOMAIN E.circs |-> NFrom(NF0(E.n), Unit(E.circs[k].gates))]
          NFof(id) == nf[CHOOSE k \in DOMAIN E.circs : E.circs[k].id = id]
          fresh == {E.regs[k].id : k \in Fresh}
      IN Note({<<"M10.ran", E.ok>>,
         <<"M10.every", \A j \in DOMAIN E.strs : OwnRegs(j) # {} \/ E.strs[j] = PId(E.n).l>>,
         <<"M10.kept", \A k \in DOMAIN E.given : /\ \E q \in DOMAIN E.regs : E.regs[q] = E.given[k]
                                                 /\ \A q \in OwnRegs(E.given[k].s) : Given(E.regs[q])>>,
         <<"M10.bits", \A k \in Fresh : LET r == E.regs[k] IN
                 /\ ToSet(r.bits) \subseteq MBits(CircOf(r.id)) /\ Cardinality(ToSet(r.bits)) = Len(r.bits)
                 /\ \A b \in ToSet(r.bits) : Cardinality({m \in Meas(CircOf(r.id)) : CircOf(r.id)[m].b[1] = b}) = 1>>,
         <<"M10.final", \A id \in fresh : Final(CircOf(id))>>,
         <<"M10.ansatz", \A id \in fresh : Layers(NFof(id).rs) = Layers(u.rs)>>,
         <<"M10.measures", \A k \in Fresh : LET r == E.regs[k] IN
               ToSet(r.bits) \subseteq MBits(CircOf(r.id)) =>
                 Back(NFof(r.id), ZOn(E.n, {QOf(CircOf(r.id), b) : b \in ToSet(r.bits)})) = Neg(Back(u, Plain(E.strs[r.s])), r.inv)>>,
         <<"M10.commute", \A k, q \in Fresh : E.regs[k].id = E.regs[q].id =>
                             Commute(Plain(E.strs[E.regs[k].s]), Plain(E.strs[E.regs[q].s]))>>,
         <<"M10.symbols", E.symbols>>, <<"M10.unmodified", E.unmodified>>})

(* --- a run ---------------------------------------------------------------- *)
\* E.exps: [n, ansatz, shots, strs [[letters, coefficient]], given [[s, id, bits, inv]], missing]
\* E.subs: [gates per qubit numbering of its experiment: pairs [e, gates], shots, res]
\* values are times the number of shots of the experiment
Parity(res, B) == FoldLeft(LAMBDA acc, c : acc + c[2] *
      (IF FoldLeftDomain(LAMBDA m, j : IF res.bits[j] \in B /\ c[1][j] = 1 THEN m + 1 ELSE m, 0, c[1]) % 2 = 1 THEN -1 ELSE 1), 0, res.c)
Same(f, u) == f.n = u.n /\ Layers(f.rs) = Layers(u.rs)
Run == /\ Is("run") /\ UNCHANGED st
   /\ LET refuse == \E e \in DOMAIN E.exps : E.exps[e].missing
          u == [e \in DOMAIN E.exps |-> NF(E.exps[e].n, E.exps[e].ansatz)]
          f == [k \in DOMAIN E.subs |-> NF(E.subs[k].n, Unit(E.subs[k].gates))]
          mine(e) == {k \in DOMAIN E.subs : E.subs[k].shots = E.exps[e].shots /\ Same(f[k], u[e])}
          want(e, j) == Back(u[e], Plain(E.exps[e].strs[j][1]))
          zed(k, qs) == Back(f[k], ZOn(E.subs[k].n, qs))
          gv(e, j) == {g \in ToSet(E.exps[e].given) : g.s = j}
          \* the circuits that read exactly string j (all measured qubits), or any subset of them
          full(e, j) == {<<k, MBits(E.subs[k].gates), 1>> : k \in {x \in mine(e) : zed(x, MQubits(E.subs[x].gates)) = want(e, j)}}
          part(e, j) == {<<k, {b \in MBits(E.subs[k].gates) : QOf(E.subs[k].gates, b) \in qs}, IF zed(k, qs) = want(e, j) THEN 1 ELSE -1>> :
                 <<k, qs>> \in {y \in {<<x, S>> : x \in mine(e), S \in SUBSET (1..E.exps[e].n)} :
                     /\ y[2] \subseteq MQubits(E.subs[y[1]].gates)
                     /\ zed(y[1], y[2]) \in {want(e, j), Times(want(e, j), 2)}}}
          by(e, j) == IF E.reduced THEN part(e, j) ELSE full(e, j)
          \* circuits the user registered are recognised by their names
          tagged(e, g) == {k \in DOMAIN E.subs : E.subs[k].id = g.id}
          vals(e, j) == IF gv(e, j) # {}
             THEN {E.exps[e].strs[j][2] * FoldLeft(LAMBDA acc, g :
                       acc + (IF g.s = j THEN (IF g.inv THEN -1 ELSE 1) * Parity(E.subs[CHOOSE k \in tagged(e, g) : TRUE].res, ToSet(g.bits)) ELSE 0),
                       0, E.exps[e].given)}
             ELSE {E.exps[e].strs[j][2] * y[3] * Parity(E.subs[y[1]].res, y[2]) : y \in by(e, j)}
          out(e, j) == {o[2] : o \in {x \in ToSet(E.outs[e]) : x[1] = E.exps[e].strs[j][1]}}
          okrun == E.ok /\ ~refuse
      IN Note({<<"M08.ran", refuse <=> ~E.ok>>,
         <<"M08.nothing_run", refuse => E.subs = <<>>>>,
         <<"M08.count", okrun => Len(E.outs) = Len(E.exps)>>,
         <<"M08.strings", okrun => \A e \in DOMAIN E.exps : e \in DOMAIN E.outs =>
               /\ Len(E.outs[e]) = Len(E.exps[e].strs)
               /\ {o[1] : o \in ToSet(E.outs[e])} = {x[1] : x \in ToSet(E.exps[e].strs)}>>,
         <<"M08.measured", okrun => \A e \in DOMAIN E.exps : \A j \in DOMAIN E.exps[e].strs :
               IF gv(e, j) # {} THEN \A g \in gv(e, j) : tagged(e, g) # {} ELSE by(e, j) # {}>>,
         <<"M08.once", (okrun /\ ~E.reduced /\ ~E.dup) =>
               Len(E.subs) = FoldLeft(LAMBDA acc, x : acc + Len(x.strs) - Cardinality({g.s : g \in ToSet(x.given)}) + x.ngiven, 0, E.exps)>>,
         <<"M08.value", okrun => \A e \in DOMAIN E.exps : e \in DOMAIN E.outs =>
               \A j \in DOMAIN E.exps[e].strs :
                  (IF gv(e, j) # {} THEN \A g \in gv(e, j) : tagged(e, g) # {} ELSE by(e, j) # {}) => out(e, j) \subseteq vals(e, j)>>,
         <<"M08.identity", okrun => \A e \in DOMAIN E.exps : e \in DOMAIN E.outs => \A j \in DOMAIN E.exps[e].strs :
               (E.exps[e].strs[j][1] = PId(E.exps[e].n).l /\ gv(e, j) = {}) => out(e, j) = {E.exps[e].strs[j][2] * E.exps[e].shots}>>,
         <<"M08.unmodified", E.unmodified>>})

TInit == KInit(S0)
TNext == Register \/ Run \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
