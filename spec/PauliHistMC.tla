---------------------------- MODULE PauliHistMC -----------------------------
(* Histories of operations on one Pauli operator.                            *)
EXTENDS Pauli, TLC, Json
CONSTANTS N, MaxOps
VARIABLES p0, p, ops
vars == <<p0, p, ops>>
Two == {<<a, b>> : a, b \in 1..N} \ {<<a, a>> : a \in 1..N}
G(g, q, a) == [g |-> g, q |-> q, a |-> a]
Gates == {G(x, <<j>>, <<>>) : x \in {"X", "Y", "Z", "S", "Sdg", "V", "Vdg", "SX", "SXdg", "H"}, j \in 1..N}
         \cup {G(x, q, <<>>) : x \in {"CX", "CY", "CZ", "SWAP", "ZZMax", "ECR", "ISWAPMax"}, q \in Two}
         \cup {G(x, <<j>>, <<m * Qt>>) : x \in {"Rz", "Rx"}, j \in 1..N, m \in -1..5}
         \cup {G("ZZPhase", q, <<m * Qt>>) : q \in Two, m \in -1..5}
         \cup {G("PhasedX", <<j>>, <<m * Qt, k * Qt>>) : j \in 1..N, m \in -1..3, k \in -1..3}
All == {[ph |-> k, l |-> l] : k \in 0..3, l \in [1..N -> 0..3]}
Init == p0 \in All /\ p = p0 /\ ops = <<>>
Do(q, o) == p' = q /\ ops' = Append(ops, o) /\ UNCHANGED p0
Gate == \E x \in Gates : Do(Push(N, <<x>>, p), [k |-> "gate", gs |-> <<x>>])
Pre == \E j \in 1..N, l \in 0..3 : Do(PMul(p, On(N, <<j>>, <<l>>)), [k |-> "pre", q |-> <<j>>, l |-> <<l>>])
Post == \E j \in 1..N, l \in 0..3 : Do(PMul(On(N, <<j>>, <<l>>), p), [k |-> "post", q |-> <<j>>, l |-> <<l>>])
Dagger == Do(PInv(p), [k |-> "dagger"])
Reduce == \E j \in 1..N : Do([p EXCEPT !.l[j] = 0], [k |-> "reduce", q |-> <<j>>])
Next == Len(ops) < MaxOps /\ (Gate \/ Pre \/ Post \/ Dagger \/ Reduce)
Spec == Init /\ [][Next]_vars
\* a Pauli times its inverse is the identity; the phase stays a fourth root of unity
Laws == PMul(p, PInv(p)) = PId(N) /\ p.ph \in 0..3 /\ PInv(PInv(p)) = p
Emit == (Len(ops) = MaxOps \/ (MaxOps > 3 /\ Len(ops) >= 8)) => PrintT("GEN " \o ToJson([n |-> N, p |-> p0, ops |-> ops]))
=============================================================================
