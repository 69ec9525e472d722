---------------------------- MODULE ShotSplitMC -----------------------------
(* Design of shot splitting: requests are cut into jobs of at most Max       *)
(* shots, jobs come back as results, results are merged per request.         *)
(* The cut is left open (any job size), so every batching policy that obeys  *)
(* the limit is covered; Greedy is the one the library documents.            *)
EXTENDS Results, TLC, Json
CONSTANTS MaxReq,    \* requests per run
          MaxShots,  \* shots per request
          Limits,    \* possible values of the maximum
          Gen        \* TRUE: print the requests as scenarios
VARIABLES req, max, jobs, done, merged, pc
vars == <<req, max, jobs, done, merged, pc>>

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Given(i) == LET own == SelectSeq(jobs, LAMBDA j : j[1] = i)
            IN SumTo([k \in DOMAIN own |-> own[k][2]], Len(own))

Init == /\ req \in UNION {[1..n -> 1..MaxShots] : n \in 0..MaxReq} /\ max \in Limits
        /\ jobs = <<>> /\ done = {} /\ merged = <<>> /\ pc = "split"

\* cut the next job of the first request not fully covered
Cut == /\ pc = "split" /\ ~Gen
       /\ \E i \in DOMAIN req : /\ Given(i) < req[i] /\ \A k \in 1..(i-1) : Given(k) = req[k]
             /\ \E n \in 1..max : /\ Given(i) + n <= req[i]
                                  /\ jobs' = Append(jobs, <<i, n>>)
       /\ UNCHANGED <<req, max, done, merged, pc>>
Submitted == pc = "split" /\ \A i \in DOMAIN req : Given(i) = req[i]
Submit == Submitted /\ pc' = "run" /\ UNCHANGED <<req, max, jobs, done, merged>>
\* a job comes back: every shot of job k reads k
Back == /\ pc = "run" /\ \E k \in DOMAIN jobs \ done : done' = done \cup {k}
        /\ UNCHANGED <<req, max, jobs, merged, pc>>
Merge == /\ pc = "run" /\ done = DOMAIN jobs
         /\ merged' = [i \in DOMAIN req |->
               [k \in {j \in DOMAIN jobs : jobs[j][1] = i} |-> jobs[k][2]]]
         /\ pc' = "end" /\ UNCHANGED <<req, max, jobs, done>>
Emit == /\ Gen /\ pc = "split"
         /\ PrintT("GEN " \o ToJson([req |-> req, max |-> max]))
         /\ pc' = "end" /\ UNCHANGED <<req, max, jobs, done, merged>>
Next == Cut \/ Submit \/ Back \/ Merge \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

JobsOK == \A j \in DOMAIN jobs : jobs[j][2] \in 1..max
InOrder == \A j, k \in DOMAIN jobs : j < k => jobs[j][1] <= jobs[k][1]
Covered == pc \in {"run", "end"} /\ ~Gen => \A i \in DOMAIN req : Given(i) = req[i]
MergedOK == pc = "end" /\ ~Gen =>
   /\ DOMAIN merged = DOMAIN req
   /\ \A i \in DOMAIN req : Size(merged[i]) = req[i]
   /\ \A i \in DOMAIN req : \A k \in DOMAIN merged[i] : jobs[k][1] = i
Ends == <>(pc = "end")
=============================================================================
