------------------------------ MODULE FitTrace -------------------------------
(* Corrections learnt from other circuits: linear regression (R23), the      *)
(* depolarising factor (R24).  Values are whole units, compared exactly as   *)
(* rationals; outcomes carry Fine parts of a unit.                           *)
EXTENDS TraceKit, Fit, Noise
S0(s) == 0
Quiet == UNCHANGED st
Fine == 1000
\* |o/Fine - a/b| <= 1/Fine
Near(o, a, b) == LET d == o * b - Fine * a IN (IF d < 0 THEN -d ELSE d) <= (IF b < 0 THEN -b ELSE b)

(* --- R23 -------------------------------------------------------------------- *)
\* E.exps: [strs |-> << [pairs, noisy, out, infit] >>]
Cdr == /\ Is("cdr") /\ Quiet
   /\ Note({<<"R23.ran", E.ok>>,
        <<"R23.results", E.ok => Len(E.outs) = Len(E.exps)>>,
        <<"R23.strings", E.ok => \A x \in DOMAIN E.exps : x \in DOMAIN E.outs => DOMAIN E.outs[x] = DOMAIN E.exps[x]>>,
        <<"R23.paired", E.paired>>,
        <<"R23.value", E.ok => \A x \in DOMAIN E.exps : \A s \in DOMAIN E.exps[x] :
              (x \in DOMAIN E.outs /\ s \in DOMAIN E.outs[x]) =>
              LET e == E.exps[x][s] IN
              IF ~e.infit THEN E.outs[x][s] = e.noisy * Fine
              ELSE IF E.degree = 1 THEN Distinct(e.pairs) >= 2 => Near(E.outs[x][s], LineN(e.pairs, e.noisy), LineD(e.pairs))
              ELSE (Distinct(e.pairs) >= 3 /\ OnParabola(e.pairs)) =>
                     LET t == Three(e.pairs) IN Near(E.outs[x][s], ParN(t, e.noisy), ParD(t))>>})

(* --- R24 -------------------------------------------------------------------- *)
\* calibration circuit of one string: E.base gates with symbols at zero, E.full the whole circuit,
\* E.meas the measurement circuit up to its measurements, E.mq measured qubits, E.p the string
Only(n, l, q) == \A j \in 1..n : j # q => l[j] = 0
Calib == /\ Is("calib") /\ Quiet
   /\ LET n == E.n
          z == [ph |-> 0, l |-> E.p]
          cliff == TLCEval(IsClifford(n, E.base))
      IN IF ~cliff THEN Note({<<"R24.refused", ~E.ok>>})
         ELSE Note({<<"R24.made", E.ok>>,
           <<"R24.one", E.ok => LET u == Pull(n, E.full, z) IN \A j \in 1..n : u.l[j] \in {0, 3}>>,
           \* a preparation of each qubit on its own, then the circuit
           <<"R24.circuit", E.ok => \A q \in 1..n : \A x \in {1, 3} :
                 Only(n, Push(n, E.full \o InvCirc(E.base), On(n, <<q>>, <<x>>)).l, q)>>,
           <<"R24.measured", E.ok => /\ Pull(n, E.meas, [ph |-> 0, l |-> [j \in 1..n |-> IF j \in ToSet(E.mq) THEN 3 ELSE 0]])
                                          = Pull(n, E.full, z)
                                     /\ Cardinality(ToSet(E.mq)) = Len(E.mq) /\ ~E.invert>>,
           <<"R24.units", E.ok => E.units>>})
\* E.exps: <<experiment: << [noisy, factor] >> >>, threshold E.thr
Dfsc == /\ Is("dfsc") /\ Quiet
   /\ Note({<<"R24.ran", E.ok>>,
        <<"R24.requests", E.ok => E.kept>>,
        <<"R24.results", E.ok => Len(E.outs) = Len(E.exps)>>,
        <<"R24.value", E.ok => \A x \in DOMAIN E.exps : x \in DOMAIN E.outs =>
              /\ DOMAIN E.outs[x] = DOMAIN E.exps[x]
              /\ \A s \in DOMAIN E.exps[x] : s \in DOMAIN E.outs[x] =>
                 LET e == E.exps[x][s]
                     f == IF e.factor < 0 THEN -e.factor ELSE e.factor
                 IN IF f * E.thrD > E.thr * E.unit THEN Near(E.outs[x][s], e.noisy * E.unit, f)
                    ELSE E.outs[x][s] = e.noisy * Fine>>})

TInit == KInit(S0)
TNext == Cdr \/ Calib \/ Dfsc \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
