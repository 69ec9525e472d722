----------------------------- MODULE SchemeTrace -----------------------------
(* Whole runs of composed schemes (G30, G31).                                *)
EXTENDS TraceKit, Noise
\* st: what the first run returned
S0(s) == <<>>
Fine == 1000
Abs(x) == IF x < 0 THEN -x ELSE x
\* expectation of a string of letters on the state a Clifford circuit prepares
Value(n, gs, l) == LET u == TLCEval(Pull(n, gs, [ph |-> 0, l |-> l]))
                   IN IF \E q \in 1..n : u.l[q] \in {1, 2} THEN 0 ELSE IF u.ph = 0 THEN 1 ELSE -1
Z(n, q) == [j \in 1..n |-> IF j = q THEN 3 ELSE 0]
\* what is read on a bit: qubit it is measured from, 0 for none
Read(r, b) == IF r.from[b] = 0 THEN 0 ELSE IF Value(r.n, r.gs, Z(r.n, r.from[b])) = 1 THEN 0 ELSE 1
Outcome(r) == TLCEval([b \in DOMAIN r.from |-> Read(r, b)])
Common == {<<"G30.ran", E.ok>>,
           <<"G30.count", E.ok => Len(E.outs) = Len(E.reqs)>>,
           <<"G31.circuits", E.circuits>>, <<"G31.operators", E.operators>>,
           <<"G31.symbols", E.symbols>>, <<"G31.trackers", E.trackers>>, <<"G31.requests", E.requests>>,
           <<"G31.again", (E.ok /\ E.run > 1 /\ E.repeatable) => E.outs = st>>}
Keep == st' = IF E.ok /\ E.run = 1 THEN E.outs ELSE st
Res == /\ Is("res") /\ Keep
   /\ Note(Common \cup UNION {LET r == E.reqs[x] o == E.outs[x] IN
        {<<"G30.bits", o.bits>>,
         <<"G30.outcome", (E.ideal /\ o.bits) => \A w \in DOMAIN o.c : o.c[w][1] = Outcome(r)>>,
         <<"G30.total", o.bits => SumSeq([w \in DOMAIN o.c |-> o.c[w][2]]) \in r.total[1]..r.total[2]>>}
        : x \in IF E.ok /\ Len(E.outs) = Len(E.reqs) THEN DOMAIN E.reqs ELSE {}})
Exp == /\ Is("exp") /\ Keep
   /\ Note(Common \cup UNION {LET r == E.reqs[x] o == E.outs[x] IN
        {<<"G30.strings", {o[s][1] : s \in DOMAIN o} = DOMAIN r.ls /\ Len(o) = Len(r.ls)>>,
         <<"G30.value", E.ideal => \A s \in DOMAIN o : o[s][1] \in DOMAIN r.ls =>
              Abs(o[s][2] - Fine * r.c[o[s][1]] * Value(r.n, r.gs, r.ls[o[s][1]])) <= 12>>}
        : x \in IF E.ok /\ Len(E.outs) = Len(E.reqs) THEN DOMAIN E.reqs ELSE {}})
TInit == KInit(S0)
TNext == Res \/ Exp \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
