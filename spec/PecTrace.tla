------------------------------ MODULE PecTrace -------------------------------
(* Learning based error cancellation (E28).  The noisy values of the own     *)
(* circuits are a known combination of those of the training circuits, so    *)
(* whatever weights reproduce the noiseless training values also turn them   *)
(* into the same combination of the noiseless ones.                          *)
EXTENDS TraceKit, SequencesExt
S0(s) == 0
Quiet == UNCHANGED st
Fine == 1000
Abs(v) == IF v < 0 THEN -v ELSE v
Dot(a, b) == SumSeq([j \in DOMAIN a |-> a[j] * b[j]])
Shape == E.ok => /\ Len(E.outs) = Len(E.exps)
                 /\ \A x \in DOMAIN E.exps : x \in DOMAIN E.outs => DOMAIN E.outs[x] = DOMAIN E.exps[x]
Each(P(_, _)) == E.ok => \A x \in DOMAIN E.exps : x \in DOMAIN E.outs =>
                   \A s \in DOMAIN E.exps[x] : s \in DOMAIN E.outs[x] => P(x, s)
Pec == /\ Is("pec") /\ Quiet
   /\ Note({<<"E28.ran", E.ok>>, <<"E28.results", Shape>>,
        <<"E28.circuits", E.ok => \A x \in DOMAIN E.sizes : LET z == E.sizes[x] IN
              \A s \in DOMAIN z.train : z.train[s] = z.own * E.cliffs /\ z.ideal[s] = E.cliffs>>,
        <<"E28.value", Each(LAMBDA x, s :
              Abs(E.outs[x][s] - Fine * SumSeq([c \in DOMAIN E.exps[x][s] |-> E.exps[x][s][c][1] * E.exps[x][s][c][2]])) <= 5)>>})
\* noisy and noiseless results are numbered from one in the order of the lists
Collate == /\ Is("collate") /\ Quiet
   /\ Note({<<"E28.collated", E.ok>>,
        <<"E28.own", E.ok =>
           E.got = [x \in 1..E.k |-> [s \in 1..E.nstr[x] |->
              LET I == SetToSortSeq({j \in DOMAIN E.ideals : E.ideals[j][1] = x - 1 /\ E.ideals[j][2] = s - 1}, <)
              IN [c \in DOMAIN I |->
                  LET N == SetToSortSeq({j \in DOMAIN E.noisies : E.noisies[j][1] = I[c] - 1}, <)
                  IN [e \in DOMAIN N |-> <<N[e], I[c]>>]]]]>>})
Learned == /\ Is("learned") /\ Quiet
   /\ Note({<<"E28.learnt", E.ok>>,
        <<"E28.reproduces", E.ok => \A x \in DOMAIN E.data : \A s \in DOMAIN E.data[x] :
             LET d == E.data[x][s] IN \A c \in DOMAIN d.rows :
                /\ Len(d.w) = Len(d.rows[c])
                /\ Abs(Dot(d.w, d.rows[c]) - E.W * d.target[c]) <= 100>>})
Applied == /\ Is("applied") /\ Quiet
   /\ Note({<<"E28.applied", E.ok>>, <<"E28.results", Shape>>,
        <<"E28.sum", Each(LAMBDA x, s : E.outs[x][s] * 4 = Fine * Dot(E.exps[x][s].pr, E.exps[x][s].v))>>})
TInit == KInit(S0)
TNext == Pec \/ Collate \/ Learned \/ Applied \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
