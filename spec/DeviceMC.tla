------------------------------ MODULE DeviceMC ------------------------------
(* Design of a mock device: circuits are submitted, placed on the qubits of  *)
(* the device (any placement) and run when the device gets to them; the      *)
(* readout of some qubits is inverted.  Handles are read in any order, any   *)
(* number of times.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Q,            \* qubits of the device
          Bits, MaxJobs, Shots
VARIABLES jobs,         \* handle -> [v: ideal outcome, n: shots, at: bit -> qubit it is measured on]
          bad,          \* qubits with inverted readout
          table,        \* handle -> <<outcome, shots>> or <<>>
          reads
vars == <<jobs, bad, table, reads>>
Init == jobs = <<>> /\ bad \in SUBSET Q /\ table = <<>> /\ reads = {}
Submit == /\ Len(jobs) < MaxJobs
          /\ \E v \in [Bits -> 0..1], n \in Shots, at \in {f \in [Bits -> Q] : \A a, b \in Bits : a # b => f[a] # f[b]} :
               /\ jobs' = Append(jobs, [v |-> v, n |-> n, at |-> at]) /\ table' = Append(table, <<>>)
          /\ UNCHANGED <<bad, reads>>
Run == \E h \in DOMAIN jobs :
          /\ table[h] = <<>>
          /\ table' = [table EXCEPT ![h] = <<[b \in Bits |-> IF jobs[h].at[b] \in bad THEN 1 - jobs[h].v[b] ELSE jobs[h].v[b]], jobs[h].n>>]
          /\ UNCHANGED <<jobs, bad, reads>>
Read == \E h \in DOMAIN jobs : table[h] # <<>> /\ reads' = reads \cup {<<h, table[h]>>} /\ UNCHANGED <<jobs, bad, table>>
Spec == Init /\ [][Submit \/ Run \/ Read]_vars /\ WF_vars(Run)
Own == \A r \in reads : r[2][2] = jobs[r[1]].n
Exact == bad = {} => \A r \in reads : r[2][1] = jobs[r[1]].v
Inverted == bad = Q => \A r \in reads : \A b \in Bits : r[2][1][b] = 1 - jobs[r[1]].v[b]
Same == \A r, q \in reads : r[1] = q[1] => r = q
Served == \A h \in 1..MaxJobs : (Len(jobs) >= h) ~> (Len(jobs) >= h /\ table[h] # <<>>)
=============================================================================
