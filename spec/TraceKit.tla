------------------------------ MODULE TraceKit ------------------------------
(* Common part of the trace specifications.  The trace file holds one JSON   *)
(* object per line, a scenario recorded from the implementation; TLC treats  *)
(* each scenario as an independent initial state and steps through its       *)
(* events.  Verdicts are total: a clause of the specification that an event  *)
(* violates is added to `bad' and the rest of the trace is still checked.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc,   \* scenario
          i,    \* next event
          st,   \* abstract state
          bad   \* violated clauses: set of <<event index, clause>>

Ev   == Scen[sc].ev
E    == Ev[i]
More == i <= Len(Ev)
Is(op) == More /\ E.op = op

KInit(s0(_)) == /\ sc \in 1..Len(Scen) /\ i = 1 /\ bad = {}
                /\ st = IF Len(Ev) = 1 /\ Ev[1].op = "crash" THEN 0 ELSE s0(Scen[sc])

\* consume one event, noting the clauses in the set of pairs <<name, holds>>
Note(clauses) == /\ bad' = bad \cup {<<i, c[1]>> : c \in {d \in clauses : ~d[2]}}
                 /\ i' = i + 1 /\ UNCHANGED sc
Goto(s) == st' = s

\* an event no action of the specification explains: the code failed
Crash == /\ Is("crash") /\ Note({<<"Crash", FALSE>>}) /\ UNCHANGED st

Verdict == /\ i = Len(Ev) + 1
           /\ PrintT("VERDICT " \o ToJson([sc |-> sc, bad |-> bad]))
           /\ i' = i + 1 /\ UNCHANGED <<sc, st, bad>>

kvars == <<sc, i, st, bad>>

Range(s) == {s[j] : j \in DOMAIN s}
Has(r, f) == f \in DOMAIN r
ToSet(s) == {s[j] : j \in DOMAIN s}
Count(x, s) == Cardinality({j \in DOMAIN s : s[j] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in ToSet(s) : Count(x, s) = Count(x, t)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* association list to function, last entry wins
FromPairs(ps) == [k \in {ps[j][1] : j \in DOMAIN ps} |->
                    LET m == {j \in DOMAIN ps : ps[j][1] = k}
                    IN ps[CHOOSE j \in m : \A q \in m : q <= j][2]]
=============================================================================
