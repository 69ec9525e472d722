------------------------------ MODULE CheckMC -------------------------------
(* A check: control a Pauli on an ancilla, apply a Clifford circuit, control *)
(* the dagger of the Pauli carried through it.                               *)
EXTENDS Noise, Json
CONSTANTS N, MaxGates
VARIABLES gs, p
vars == <<gs, p>>
Two == {<<a, b>> : a, b \in 1..N} \ {<<a, a>> : a \in 1..N}
G(g, q, a) == [g |-> g, q |-> q, a |-> a, b |-> <<>>]
Gates == {G(x, <<j>>, <<>>) : x \in {"H", "S", "Vdg"}, j \in 1..N} \cup {G(x, q, <<>>) : x \in {"CX", "CZ"}, q \in Two}
Init == gs = <<>> /\ p \in {q \in {[ph |-> 0, l |-> l] : l \in [1..N -> 0..3]} : q.l # IdL(N)}
Next == Len(gs) < MaxGates /\ \E x \in Gates : gs' = Append(gs, x) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
A == N + 1
Had(s) == NFrom(s, << G("H", <<A>>, <<>>) >>)
Ctrl(s, q) == FoldLeft(AddRot, s, CtrlRots(N, q))
End == PInv(Push(N, gs, p))
\* the checked circuit is the circuit, with the ancilla left alone ...
Alone == SameNF(Had(Ctrl(NFrom(Ctrl(Had(NF0(A)), p), gs), End)), NF(A, gs))
\* ... and an error between the halves flips the ancilla exactly if it anticommutes with the check there
Flag == \A e \in {[ph |-> 0, l |-> l] : l \in [1..A -> 0..3]} : e.l[A] = 0 =>
   LET s == Had(Ctrl(NFrom(NF0(A), gs), End))
       back == Back(s, On(A, <<A>>, <<3>>))
   IN ~Commute(back, e) <=> ~Commute([ph |-> 0, l |-> [j \in 1..N |-> e.l[j]]], p)
=============================================================================
