------------------------------- MODULE MeasMC -------------------------------
(* Measurement of Pauli strings: an ansatz is built gate by gate, then       *)
(* strings are given measurement circuits; each must turn its string into a  *)
(* product of Z on the bits read.                                            *)
EXTENDS Pauli, TLC, Json
CONSTANTS N, MaxGates, MaxStr, Gen
VARIABLES gs, strs, pc
vars == <<gs, strs, pc>>
G(x, q) == [g |-> x, q |-> q, a |-> <<>>]
R(x, q, an) == [g |-> x, q |-> q, a |-> <<an>>]
Gates == {G(x, <<j>>) : x \in {"H", "S"}, j \in 1..N} \cup {G("CX", <<1, 2>>), G("CZ", <<1, 2>>), G("CX", <<2, 1>>)}
         \cup {R("Rz", <<1>>, 300), R("Ry", <<2>>, 740)}
Strings == [1..N -> 0..3]
Init == gs = <<>> /\ strs = {} /\ pc = "ansatz"
Build == pc = "ansatz" /\ Len(gs) < MaxGates /\ (\E x \in Gates : gs' = Append(gs, x)) /\ UNCHANGED <<strs, pc>>
Pick == pc = "ansatz" /\ (\E S \in SUBSET Strings : Cardinality(S) \in 1..MaxStr /\ strs' = S) /\ pc' = "measure" /\ UNCHANGED gs
Next == Build \/ Pick
Spec == Init /\ [][Next]_vars

\* the library's default: X read after H, Y after a quarter turn about X
Basis(l) == LET one(q) == IF l[q] = 1 THEN <<G("H", <<q>>)>> ELSE IF l[q] = 2 THEN <<R("Rx", <<q>>, Qt)>> ELSE <<>>
            IN FoldLeftDomain(LAMBDA acc, q : acc \o one(q), <<>>, l)
Reads(l) == [ph |-> 0, l |-> [q \in DOMAIN l |-> IF l[q] = 0 THEN 0 ELSE 3]]
\* U_full^-1 Z U_full = U^-1 P U, for any ansatz
Measures == pc = "measure" => \A l \in strs :
    LET u == NF(N, gs)  f == NFrom(u, Basis(l))
    IN /\ Layers(f.rs) = Layers(u.rs)
       /\ Back(f, Reads(l)) = Back(u, [ph |-> 0, l |-> l])
\* without the basis change the wrong observable is read
Needed == pc = "measure" => \A l \in strs : (\E q \in 1..N : l[q] \in {1, 2}) =>
    Back(NF(N, gs), Reads(l)) # Back(NF(N, gs), [ph |-> 0, l |-> l])
Emit == Gen /\ pc = "measure" => PrintT("GEN " \o ToJson([gs |-> gs, strs |-> strs]))
=============================================================================
