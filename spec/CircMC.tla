------------------------------- MODULE CircMC --------------------------------
(* Circuits derived from small circuits, step by step: folded, framed,       *)
(* with rotations replaced, with Paulis around a frame gate.                 *)
EXTENDS Circ, Json
CONSTANTS MaxGates, MaxSteps, Mode
VARIABLES gs, hs, k, kept
vars == <<gs, hs, k, kept>>
N == 2
Two == {<<a, b>> : a, b \in 1..N} \ {<<a, a>> : a \in 1..N}
G(g, q, a) == [g |-> g, q |-> q, a |-> a]
Cliff == {G(x, <<j>>, <<>>) : x \in {"H", "S"}, j \in 1..N} \cup {G("CX", q, <<>>) : q \in Two} \cup {G("CZ", <<1, 2>>, <<>>)}
Turn == {G("Rz", <<j>>, <<a>>) : j \in 1..N, a \in {160, 1000}} \cup {G("TK1", <<1>>, <<40, 80, 160>>)}
Gates == CASE Mode = "fold" -> Cliff \cup Turn \cup {G("ZZMax", <<1, 2>>, <<>>)}
           [] Mode = "frame" -> Cliff
           [] Mode = "pec" -> {G("CX", q, <<>>) : q \in Two} \cup {G("H", <<1>>, <<>>), G("Rz", <<2>>, <<160>>)}
           [] Mode = "train" -> {G("Rz", <<j>>, <<160>>) : j \in 1..N} \cup {G("CX", <<1, 2>>, <<>>)}
Build == k = -1 /\ Len(gs) < MaxGates /\ (\E x \in Gates : gs' = Append(gs, x)) /\ UNCHANGED <<hs, k, kept>>
Start == k = -1 /\ gs # <<>> /\ hs' = gs /\ k' = 0 /\ UNCHANGED <<gs, kept>>
Ins(s, at, new) == SubSeq(s, 1, at) \o new \o SubSeq(s, at + 1, Len(s))
\* a gate is followed by its inverse and itself, or the whole circuit is
FoldGate == Mode = "fold" /\ k >= 0 /\ k < MaxSteps /\ \E j \in DOMAIN hs :
               /\ hs' = Ins(hs, j, << InvGate(hs[j]), hs[j] >>) /\ k' = k + 1 /\ UNCHANGED <<gs, kept>>
FoldAll == Mode = "fold" /\ k = 0 /\ hs' = gs \o InvCirc(gs) \o gs /\ k' = Len(gs) /\ UNCHANGED <<gs, kept>>
\* a Pauli before a Clifford gate and the Pauli it is carried to after
AsGates(l) == FoldLeftDomain(LAMBDA acc, j : IF l[j] = 0 THEN acc ELSE Append(acc, G(<<"X", "Y", "Z">>[l[j]], <<j>>, <<>>)), <<>>, l)
FramePauli == Mode = "frame" /\ k >= 0 /\ k < MaxSteps /\ \E j \in DOMAIN hs : \E l \in [1..N -> 0..3] :
               /\ hs' = SubSeq(hs, 1, j - 1) \o AsGates(l) \o << hs[j] >> \o AsGates(Push(N, << hs[j] >>, [ph |-> 0, l |-> l]).l)
                        \o SubSeq(hs, j + 1, Len(hs))
               /\ k' = k + 1 /\ UNCHANGED <<gs, kept>>
\* rotations of gs that keep their angle: k of them are swapped for as many of the others
RzAt == {j \in DOMAIN gs : gs[j].g = "Rz"}
Least(a, b) == IF a < b THEN a ELSE b
Non(n) == Least(n, Cardinality(RzAt) - 1)
Keep == Mode = "train" /\ k = 0 /\ Cardinality(RzAt) > 1 /\ \E n \in 1..MaxSteps : \E S \in kSubset(Non(n), RzAt) :
               /\ kept' = S /\ k' = n /\ UNCHANGED <<gs, hs>>
Pairs == Mode = "train" /\ k > 0 /\ \E p \in 0..k : \E c \in SUBSET (RzAt \ kept) : \E d \in SUBSET kept :
               /\ Cardinality(c) = Least(p, Least(Cardinality(RzAt \ kept), Cardinality(kept))) /\ Cardinality(d) = Cardinality(c)
               /\ kept' = (kept \ d) \cup c /\ UNCHANGED <<gs, hs, k>>
Init == gs = <<>> /\ hs = <<>> /\ k = -1 /\ kept = {}
Next == Build \/ Start \/ FoldGate \/ FoldAll \/ FramePauli \/ Keep \/ Pairs
Spec == Init /\ [][Next]_vars

Same == k >= 0 /\ Mode \in {"fold", "frame"} => SameOp(N, gs, hs)
Grown == k >= 0 /\ Mode = "fold" => Len(hs) = Len(gs) + 2 * k
KeptMany == k > 0 /\ Mode = "train" => Cardinality(kept) = Non(k) /\ kept \subseteq RzAt /\ kept # RzAt
\* substitutions around one frame are told apart by the circuit alone, and there are 15 per frame
Fr == {j \in DOMAIN gs : gs[j].g = "CX"}
PG(l, q) == IF l = 0 THEN <<>> ELSE << G(<<"X", "Y", "Z">>[l], << q >>, <<>>) >>
Sub(c) == IF c[1] = 0 THEN gs ELSE LET p == PG(c[2], gs[c[1]].q[1]) \o PG(c[3], gs[c[1]].q[2])
             IN SubSeq(gs, 1, c[1] - 1) \o p \o << gs[c[1]] >> \o p \o SubSeq(gs, c[1] + 1, Len(gs))
Cs == {<<0, 0, 0>>} \cup {c \in {<<j, a, b>> : j \in Fr, a \in 0..3, b \in 0..3} : c[2] + c[3] > 0}
Told == k = 0 /\ Mode = "pec" => /\ Cardinality(Cs) = 1 + 15 * Cardinality(Fr)
                                 /\ Cardinality({[w \in 1..N |-> On1(Sub(c), w)] : c \in Cs}) = Cardinality(Cs)
                                 /\ \A c \in Cs : UpToPauli(NF(N, SelectSeq(gs, LAMBDA x : x.g # "Rz")), NF(N, SelectSeq(Sub(c), LAMBDA x : x.g # "Rz")))
\* scenarios for the implementation
Emit == (Mode = "fold" /\ k = 0) => PrintT("GEN " \o ToJson([gs |-> gs]))
=============================================================================
