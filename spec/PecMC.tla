------------------------------- MODULE PecMC ---------------------------------
(* Combining quasi-probabilities as designed.  Circuits of one experiment    *)
(* after another go into one list; each experiment takes back its own        *)
(* stretch; weights that reproduce the noiseless values of training rows     *)
(* reproduce every combination of them.                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS MaxExp, MaxErr, V
VARIABLES sizes,   \* number of circuits of each experiment
          flat,    \* <<experiment, error>> in the order they are run
          w, rows  \* weights and training rows of the last experiment
Vals == -V..V
Init == sizes = <<>> /\ flat = <<>> /\ w = <<>> /\ rows = <<>>
Add == /\ Len(sizes) < MaxExp
       /\ \E n \in 1..MaxErr : \E u \in [1..n -> Vals] : \E a, b \in [1..n -> Vals] :
            /\ sizes' = Append(sizes, n)
            /\ flat' = flat \o [e \in 1..n |-> <<Len(sizes) + 1, e>>]
            /\ w' = u /\ rows' = <<a, b>>
Spec == Init /\ [][Add]_<<sizes, flat, w, rows>>
Before(x) == FoldLeft(LAMBDA acc, n : acc + n, 0, SubSeq(sizes, 1, x - 1))
Stretch(x) == SubSeq(flat, Before(x) + 1, Before(x) + sizes[x])
Own == \A x \in DOMAIN sizes : Stretch(x) = [e \in 1..sizes[x] |-> <<x, e>>]
AllUsed == Len(flat) = Before(Len(sizes) + 1)
Dot(a, b) == FoldLeftDomain(LAMBDA acc, j : acc + a[j] * b[j], 0, a)
Linear == w # <<>> => \A x, y \in -2..2 :
            Dot(w, [e \in DOMAIN w |-> x * rows[1][e] + y * rows[2][e]]) = x * Dot(w, rows[1]) + y * Dot(w, rows[2])
=============================================================================
