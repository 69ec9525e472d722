------------------------------ MODULE ZneTrace -------------------------------
(* Zero-noise extrapolation (Z26).  Scalings are in halves, values in whole  *)
(* units, outcomes in Fine parts of a unit.                                  *)
EXTENDS TraceKit, Fit, Noise
S0(s) == 0
Quiet == UNCHANGED st
Fine == 1000
Near(o, a, b) == LET d == o * b - Fine * a IN (IF d < 0 THEN -d ELSE d) <= (IF b < 0 THEN -b ELSE b)
Close(o, v) == LET d == o - Fine * v IN (IF d < 0 THEN -d ELSE d) <= 20
Limit(o, e, how, deg, m) ==
  IF how \in {"exponential", "poly_exponential", "cube_root"} THEN Close(o, e.a + e.b)
  ELSE LET f == TLCEval(PolyFit(e.pts, deg)) IN f[2] = 0 \/ Near(o, f[1], f[2] * m)
\* value of a string on the state a Clifford circuit makes from nothing
Value(n, gs, l) == LET u == TLCEval(Pull(n, gs, [ph |-> 0, l |-> l]))
                   IN IF \E q \in 1..n : u.l[q] \in {1, 2} THEN 0 ELSE IF u.ph = 0 THEN 1 ELSE -1
Shape == E.ok => /\ Len(E.outs) = Len(E.exps)
                 /\ \A x \in DOMAIN E.exps : x \in DOMAIN E.outs => DOMAIN E.outs[x] = DOMAIN E.exps[x]
Each(P(_, _)) == E.ok => \A x \in DOMAIN E.exps : x \in DOMAIN E.outs =>
                   \A s \in DOMAIN E.exps[x] : s \in DOMAIN E.outs[x] => P(x, s)

\* E.runs: <<experiment, scaling, shots>> of every circuit that was run
Zne == /\ Is("zne") /\ Quiet
   /\ Note({<<"Z26.ran", E.ok>>, <<"Z26.results", Shape>>,
        <<"Z26.once", (E.ok /\ ~E.real) =>
            /\ Len(E.runs) = Len(E.shots) * Len(E.xs) * E.m
            /\ \A x \in DOMAIN E.shots : \A k \in DOMAIN E.xs :
                  Cardinality({r \in DOMAIN E.runs : E.runs[r] = <<x, E.xs[k], E.shots[x] \div E.m>>}) = E.m>>,
        <<"Z26.device", (E.ok /\ E.real) => /\ E.runs[1][4] = 0
                                            /\ (Len(E.shots) > 0 /\ \E x \in DOMAIN E.exps : \E s \in DOMAIN E.exps[x] : ToSet(E.exps[x][s].l) # {0})
                                                 => E.runs[1][3] > 0>>,
        <<"Z26.ideal", E.real => Each(LAMBDA x, s : LET e == E.exps[x][s] IN Close(E.outs[x][s], e.c * Value(e.n, e.gs, e.l)))>>,
        <<"Z26.limit", ~E.real => Each(LAMBDA x, s : Limit(E.outs[x][s], E.exps[x][s], E.how, E.deg, E.m))>>})
\* a circuit that was run has the value of the string of the original circuit
Zrun == /\ Is("zrun") /\ Quiet
   /\ Note({<<"Z26.string", E.known>>,
        <<"Z26.circuit", E.known => Value(E.n, E.gs, E.l) = Value(E.n2, E.gs2, E.l2)>>})
Zfit == /\ Is("zfit") /\ Quiet
   /\ Note({<<"Z26.fits", ~E.refuse => E.ok>>, <<"Z26.refused", E.refuse => ~E.ok>>,
        <<"Z26.results", ~E.refuse => Shape>>,
        <<"Z26.limit", ~E.refuse => Each(LAMBDA x, s : Limit(E.outs[x][s], E.exps[x][s], IF E.how \in {"linear", "richardson"} THEN "polynomial" ELSE E.how, E.deg, 1))>>})
\* mean of the circuits of each experiment
Zmerge == /\ Is("zmerge") /\ Quiet
   /\ Note({<<"Z26.merged", E.ok>>,
        <<"Z26.mean", E.ok =>
            /\ Len(E.outs) = E.k
            /\ \A x \in 1..E.k : x \in DOMAIN E.outs =>
                 LET K == {r \in DOMAIN E.of : E.of[r] = x}
                     n == Len(E.vals[CHOOSE r \in K : TRUE])
                 IN /\ Len(E.outs[x]) = n
                    /\ \A s \in 1..n : s \in DOMAIN E.outs[x] =>
                         Near(E.outs[x][s], SumSeq([j \in 1..Cardinality(K) |-> E.vals[SetToSeq(K)[j]][s]]), Cardinality(K))>>})
Zcopy == /\ Is("zcopy") /\ Quiet
   /\ Note({<<"Z26.tasks", E.ok>>,
        <<"Z26.copies", E.ok => /\ Len(E.same) = E.d /\ \A c \in DOMAIN E.same : FALSE \notin ToSet(E.same[c])>>,
        <<"Z26.apart", E.ok => E.apart>>, <<"Z26.names", E.ok => E.back>>,
        <<"Z26.shared", E.ok => /\ Len(E.of) = SumSeq([x \in DOMAIN E.asked |-> E.asked[x][2]]) /\ Len(E.shots) = Len(E.of)
                                /\ \A r \in DOMAIN E.of : E.shots[r] = E.asked[E.of[r]][1] \div E.asked[E.of[r]][2]
                                /\ \A x \in DOMAIN E.asked : Count(x, E.of) = E.asked[x][2]>>})
TInit == KInit(S0)
TNext == Zne \/ Zrun \/ Zfit \/ Zmerge \/ Zcopy \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
