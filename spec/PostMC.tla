------------------------------- MODULE PostMC -------------------------------
(* Design of post-selection and leakage detection.  Shots arrive one at a    *)
(* time; each is a valuation of bits, some computed and some checked.  A     *)
(* shot with leaked qubits reads anything on the bits of those qubits and 1  *)
(* on the detection bits of those that carry a gadget.                       *)
EXTENDS Results, TLC
CONSTANTS Comp, Check, MaxShots,
          Gadget       \* check bit -> computed bit whose qubit it watches
VARIABLES ideal,       \* bag of shots the circuit alone would give on Comp
          raw,         \* bag of shots of the device
          leaked,      \* number of shots during which a qubit leaked
          kept         \* kept so far, selecting shot by shot
vars == <<ideal, raw, leaked, kept>>
GadgetAll == [b \in Check |-> IF b = "c" THEN "a" ELSE "b"]
GadgetSome == [b \in Check |-> "a"]
All == Comp \cup Check
Zero(sh, B) == \A b \in B : sh[b] = 0
Post(f, B) == Marginal(Select(f, LAMBDA sh : Zero(sh, B)), (All \ B) \cap Comp)
Init == ideal = EmptyBag /\ raw = EmptyBag /\ leaked = 0 /\ kept = EmptyBag
Shoot == /\ Size(raw) < MaxShots
  /\ \E v \in [Comp -> 0..1], L \in SUBSET Comp, w \in [Comp -> 0..1] :
      LET sh == [b \in All |-> IF b \in Comp THEN IF b \in L THEN w[b] ELSE v[b]
                               ELSE IF Gadget[b] \in L THEN 1 ELSE 0]
      IN /\ \A b \in Comp \ L : w[b] = 0
         /\ raw' = AddTo(raw, sh, 1)
         /\ ideal' = IF L = {} THEN AddTo(ideal, v, 1) ELSE ideal
         /\ leaked' = leaked + IF L = {} THEN 0 ELSE 1
         /\ kept' = IF Zero(sh, Check) THEN AddTo(kept, [b \in Comp |-> sh[b]], 1) ELSE kept
Spec == Init /\ [][Shoot]_vars
\* selecting a table is selecting its shots
Shotwise == SameBagF(Post(raw, Check), kept)
\* with a gadget on every qubit exactly the shots without leakage stay, unchanged
Exactly == {Gadget[b] : b \in Check} = Comp =>
              /\ SameBagF(kept, ideal) /\ Size(kept) + leaked = Size(raw)
\* with gadgets on some qubits no shot without leakage is lost
NoneLost == \A v \in DOMAIN ideal : v \in DOMAIN kept /\ kept[v] >= ideal[v]
\* selecting on some bits and then on the others, in any order; merging loses no shot
Stepwise == \A B \in SUBSET Check :
   LET one == Marginal(Select(raw, LAMBDA sh : Zero(sh, B)), All \ B)
       two == Marginal(Select(one, LAMBDA sh : Zero(sh, Check \ B)), Comp)
   IN SameBagF(two, kept)
Merges == Size(Marginal(raw, Comp)) = Size(raw)
=============================================================================
