------------------------------ MODULE PauliMC -------------------------------
(* The algebra checked on itself: all circuits of a few gates.               *)
EXTENDS Pauli, TLC
CONSTANTS N, MaxGates, Angles
VARIABLE gs
Two == {<<a, b>> : a, b \in 1..N} \ {<<a, a>> : a \in 1..N}
G1(names) == {[g |-> x, q |-> <<j>>, a |-> <<>>] : x \in names, j \in 1..N}
Gates == G1({"X", "Y", "S", "Vdg", "H", "T"})
         \cup {[g |-> x, q |-> p, a |-> <<>>] : x \in {"CX", "CY", "CZ", "SWAP", "ZZMax"}, p \in Two}
         \cup {[g |-> x, q |-> <<j>>, a |-> <<an>>] : x \in {"Rz", "Rx", "Ry"}, j \in 1..N, an \in Angles}
         \cup {[g |-> "TK1", q |-> <<1>>, a |-> <<300, 700, Qt>>], [g |-> "ZZPhase", q |-> <<1, 2>>, a |-> <<300>>]}
Init == gs = <<>>
Next == Len(gs) < MaxGates /\ \E x \in Gates : gs' = Append(gs, x)
Spec == Init /\ [][Next]_gs

Letters == [1..N -> 0..3]
All == {[ph |-> 0, l |-> l] : l \in Letters}
\* multiplication is a group: associative, letters square to one
Group == gs = <<>> => /\ \A p, q, r \in All : PMul(PMul(p, q), r) = PMul(p, PMul(q, r))
                      /\ \A p \in All : PMul(p, p) = PId(N)
                      /\ \A p, q \in All : Commute(p, q) <=> PMul(p, q) = PMul(q, p)
                      /\ \A p, q \in All : ~Commute(p, q) <=> PMul(p, q) = Times(PMul(q, p), 2)
P2(a, b) == [ph |-> 0, l |-> [j \in 1..N |-> IF j = 1 THEN a ELSE IF j = 2 THEN b ELSE 0]]
M2(a, b) == Times(P2(a, b), 2)
Go(x, p) == Push(N, <<x>>, p)
A(x) == [g |-> x, q |-> <<1>>, a |-> <<>>]
B(x) == [g |-> x, q |-> <<1, 2>>, a |-> <<>>]
Tables == gs = <<>> =>
   /\ Go(A("H"), P2(1, 0)) = P2(3, 0) /\ Go(A("H"), P2(3, 0)) = P2(1, 0) /\ Go(A("H"), P2(2, 0)) = M2(2, 0)
   /\ Go(A("S"), P2(1, 0)) = P2(2, 0) /\ Go(A("S"), P2(2, 0)) = M2(1, 0) /\ Go(A("S"), P2(3, 0)) = P2(3, 0)
   /\ Go(A("V"), P2(3, 0)) = M2(2, 0) /\ Go(A("V"), P2(2, 0)) = P2(3, 0)
   /\ Go(B("CX"), P2(1, 0)) = P2(1, 1) /\ Go(B("CX"), P2(0, 1)) = P2(0, 1)
   /\ Go(B("CX"), P2(3, 0)) = P2(3, 0) /\ Go(B("CX"), P2(0, 3)) = P2(3, 3)
   /\ Go(B("CZ"), P2(1, 0)) = P2(1, 3) /\ Go(B("CZ"), P2(0, 1)) = P2(3, 1)
   /\ Go(B("CY"), P2(0, 1)) = P2(3, 1) /\ Go(B("CY"), P2(1, 0)) = P2(1, 2)
   /\ Go(B("SWAP"), P2(1, 3)) = P2(3, 1) /\ Go(B("ZZMax"), P2(1, 0)) = P2(2, 3)
\* pushing through a Clifford circuit is a homomorphism, pulling undoes it
Cl == IsClifford(N, gs)
PushHom == Cl => \A p, q \in All : Push(N, gs, PMul(p, q)) = PMul(Push(N, gs, p), Push(N, gs, q))
PullInv == Cl => \A p \in All : Pull(N, gs, Push(N, gs, p)) = p /\ Push(N, gs, Pull(N, gs, p)) = p
InvPull == Cl => \A p \in All : Push(N, InvCirc(gs), p) = Pull(N, gs, p)
\* the normal form agrees with pulling, and recognises inverses
NFPull == Cl => LET s == NF(N, gs) IN s.rs = <<>> /\ \A p \in All : Back(s, p) = Pull(N, gs, p)
NFInv == SameNF(NF(N, gs \o InvCirc(gs)), NF0(N)) /\ SameNF(NF(N, InvCirc(gs) \o gs), NF0(N))
\* swapping gates on different qubits changes nothing
NFSwap == \A k \in 1..(Len(gs) - 1) :
    {gs[k].q[j] : j \in DOMAIN gs[k].q} \cap {gs[k+1].q[j] : j \in DOMAIN gs[k+1].q} = {} =>
       SameOp(N, gs, [gs EXCEPT ![k] = gs[k+1], ![k+1] = gs[k]])
Identities == gs = <<>> =>
   /\ SameOp(N, <<A("H"), A("S"), A("H")>>, <<A("V")>>)
   /\ SameOp(N, <<B("CX"), [B("CX") EXCEPT !.q = <<2, 1>>], B("CX")>>, <<B("SWAP")>>)
   /\ SameOp(N, <<B("CX"), [g |-> "Rz", q |-> <<2>>, a |-> <<300>>], B("CX")>>, <<[g |-> "ZZPhase", q |-> <<1, 2>>, a |-> <<300>>]>>)
   /\ SameOp(N, <<A("X"), [g |-> "Rz", q |-> <<1>>, a |-> <<300>>], A("X")>>, <<[g |-> "Rz", q |-> <<1>>, a |-> <<-300>>]>>)
   /\ SameOp(N, <<A("T"), A("T")>>, <<A("S")>>)
   /\ SameOp(N, <<[g |-> "Rz", q |-> <<1>>, a |-> <<1300>>], [g |-> "Rx", q |-> <<1>>, a |-> <<Qt>>], [g |-> "Rz", q |-> <<1>>, a |-> <<900>>]>>,
             <<[g |-> "TK1", q |-> <<1>>, a |-> <<900, Qt, 1300>>]>>)
   /\ ~SameOp(N, <<A("T")>>, <<A("S")>>)
   /\ ~SameOp(N, <<[g |-> "Rz", q |-> <<1>>, a |-> <<300>>], A("T")>>, <<A("T")>>)
   /\ ~SameOp(N, <<[g |-> "Rz", q |-> <<1>>, a |-> <<300>>], [g |-> "Rx", q |-> <<1>>, a |-> <<300>>]>>,
                 <<[g |-> "Rx", q |-> <<1>>, a |-> <<300>>], [g |-> "Rz", q |-> <<1>>, a |-> <<300>>]>>)
=============================================================================
