---------------------------- MODULE DeviceTrace -----------------------------
(* Mock devices with noise (B32).  st: jobs by handle, in order of           *)
(* submission.                                                               *)
EXTENDS TraceKit, Noise
S0(s) == <<>>
\* --- the noise a device is configured with; probabilities in parts of D
\* E.errs: [g, q, ps: << <<letters, parts>> .. >>], E.read: [q, m]
Err(g, q) == {e \in ToSet(E.errs) : e.g = g /\ e.q = q}
Share(e, l) == SumSeq([k \in DOMAIN e.ps |-> IF e.ps[k][1] = l THEN e.ps[k][2] ELSE 0])
\* depolarising with parameter k/100: every Pauli gets an equal share of it, the identity keeps the rest
Depol(e, n, k) == LET share == IF n = 1 THEN 4 * k ELSE k
                  IN /\ \A l \in [1..n -> 0..3] : Share(e, l) = (IF \A j \in 1..n : l[j] = 0 THEN 1600 - (4^n - 1) * share ELSE share)
Model == /\ Is("model") /\ UNCHANGED st
   /\ Note({<<"B32.ran", E.ok>>,
        <<"B32.single", E.p1 > 0 => \A q \in 1..E.n, g \in {"h", "rz"} : \E e \in Err(g, <<q>>) : TRUE>>,
        <<"B32.double", E.p2 > 0 => \A q, r \in 1..E.n : q # r => Err("cx", <<q, r>>) # {}>>,
        <<"B32.rates", \A e \in ToSet(E.errs) :
               IF Len(e.q) = 1 THEN Depol(e, 1, E.p1) ELSE Depol(e, 2, E.p2)>>,
        <<"B32.only", \A e \in ToSet(E.errs) : /\ e.g \in {"h", "rx", "rz", "cx"}
                                               /\ \A j \in DOMAIN e.q : e.q[j] \in 1..E.n>>,
        <<"B32.readout", /\ {r.q : r \in ToSet(E.read)} = (IF E.pr = 0 /\ E.read = <<>> THEN {} ELSE 1..E.n)
                         /\ \A r \in ToSet(E.read) : r.m = << <<100 - E.pr, E.pr>>, <<E.pr, 100 - E.pr>> >> >>})
\* --- runs
Submit == /\ Is("submit") /\ Goto(st \o E.jobs)
          /\ Note({<<"B32.ran", E.ok>>, <<"B32.handles", E.ok => Len(E.jobs) = E.k /\ E.fresh>>, <<"B32.input", E.same>>})
Z(n, q) == [j \in 1..n |-> IF j = q THEN 3 ELSE 0]
Value(n, gs, l) == LET u == TLCEval(Pull(n, gs, [ph |-> 0, l |-> l])) IN IF u.ph = 0 THEN 0 ELSE 1
Ideal(r) == TLCEval([b \in DOMAIN r.from |-> IF r.from[b] = 0 THEN 0 ELSE Value(r.n, r.gs, Z(r.n, r.from[b]))])
\* readout errors strike what is measured
Want(r, flip) == TLCEval([b \in DOMAIN r.from |-> IF r.from[b] = 0 \/ ~flip THEN Ideal(r)[b] ELSE 1 - Ideal(r)[b]])
Read == /\ Is("read") /\ UNCHANGED st
        /\ LET r == st[E.h]
           IN Note({<<"B32.ran", E.ok>>,
                <<"B32.bits", E.ok => E.bits>>,
                <<"B32.shots", (E.ok /\ E.bits) => SumSeq([w \in DOMAIN E.c |-> E.c[w][2]]) = r.shots>>,
                <<"B32.outcome", (E.ok /\ E.bits /\ E.known) => \A w \in DOMAIN E.c : E.c[w][1] = Want(r, E.flip)>>})
TInit == KInit(S0)
TNext == Model \/ Submit \/ Read \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
