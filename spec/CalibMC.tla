------------------------------ MODULE CalibMC --------------------------------
(* Depolarising calibration as designed: the string is taken back through    *)
(* the stabiliser circuit, each qubit is prepared in an eigenstate of the    *)
(* letter found there, and the circuit follows.                              *)
EXTENDS Pauli, TLC
CONSTANTS MaxGates
N == 2
Gate == {[g |-> g, q |-> <<q>>, a |-> <<>>] : g \in {"H", "S", "V", "X"}, q \in 1..N}
        \cup {[g |-> g, q |-> q, a |-> <<>>] : g \in {"CX", "CZ", "SWAP"}, q \in {<<1, 2>>, <<2, 1>>}}
VARIABLES gs, p
Init == gs = <<>> /\ p \in {[ph |-> 0, l |-> l] : l \in [1..N -> 0..3]}
Next == /\ Len(gs) < MaxGates /\ \E g \in Gate : gs' = Append(gs, g)
        /\ UNCHANGED p
Spec == Init /\ [][Next]_<<gs, p>>
At == Pull(N, gs, p)
PrepOf(l, q) == CASE l = 1 -> <<[g |-> "H", q |-> <<q>>, a |-> <<>>]>>
                  [] l = 2 -> <<[g |-> "V", q |-> <<q>>, a |-> <<>>]>>
                  [] OTHER -> <<>>
Prep == PrepOf(At.l[1], 1) \o PrepOf(At.l[2], 2)
Got == Pull(N, Prep \o gs, p)
\* noiseless value of the string is plus or minus one
Definite == Got.l \in [1..N -> {0, 3}] /\ Got.ph \in {0, 2}
\* an error after the circuit that flips the string flips it there as well
Flips == \A e \in [1..N -> 0..3] :
           LET x == [ph |-> 0, l |-> e] IN Anti(e, p.l) <=> Anti(Pull(N, Prep \o gs, x).l, Got.l)
\* a circuit on one layer of preparations only acts on each qubit by itself
Alone == \A q \in 1..N : \A z \in {1, 3} : \A j \in 1..N : j # q => Push(N, Prep, On(N, <<q>>, <<z>>)).l[j] = 0
=============================================================================
