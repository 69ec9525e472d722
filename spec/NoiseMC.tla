------------------------------ MODULE NoiseMC -------------------------------
(* Histories of operations on error distributions of one qubit; circuits     *)
(* with noisy gates; logical errors.                                         *)
EXTENDS Noise, TLC, Json
CONSTANTS D, MaxGates, Mode
VARIABLES d, e, gs
vars == <<d, e, gs>>
N == 2
Dists == {[n |-> 1, D |-> D, r |-> [l \in {<<1>>, <<2>>, <<3>>} |-> f[l[1]]]] : f \in [1..3 -> 0..D]}
ValidDists == {x \in Dists : Valid(x)}
Two == {<<a, b>> : a, b \in 1..N} \ {<<a, a>> : a \in 1..N}
Gates == {[g |-> x, q |-> <<j>>, a |-> <<>>, b |-> <<>>] : x \in {"H", "S"}, j \in 1..N}
         \cup {[g |-> x, q |-> p, a |-> <<>>, b |-> <<>>] : x \in {"CX", "CZ"}, p \in Two}
Init == /\ d \in (IF Mode = "dist" THEN ValidDists ELSE {[n |-> 1, D |-> 4, r |-> (<<1>> :> 1 @@ <<2>> :> 3)]})
        /\ e \in (IF Mode = "dist" THEN ValidDists ELSE {[n |-> 2, D |-> 4, r |-> (<<1, 2>> :> 1 @@ <<0, 3>> :> 1)]})
        /\ gs = <<>>
Next == /\ Mode = "circ" /\ Len(gs) < MaxGates /\ \E x \in Gates : gs' = Append(gs, x)
        /\ UNCHANGED <<d, e>>
Spec == Init /\ [][Next]_vars
Model == ("H" :> d @@ "CX" :> e)

Sums(f) == Sum(f, DOMAIN f)
Conserve == Mode = "dist" =>
   /\ Sums(Full(d)) = d.D /\ Sums(Full(Conv(d, e))) = d.D * e.D /\ Sums(Full(Mix(<<d, e>>))) = 2 * d.D
   /\ \A l \in AllL(1) : Full(Conv(d, e))[l] >= 0
Commutes == Mode = "dist" => SameRates(Conv(d, e), Conv(e, d))
TransferHom == Mode = "dist" => \A l \in AllL(1) : Transfer(Conv(d, e), l) = Transfer(d, l) * Transfer(e, l)
ScaleHom == Mode = "dist" => /\ SameRates(Scale(d, 1), d) /\ SameRates(Scale(Scale(d, 2), 2), Scale(d, 4))
                             /\ SameRates(Scale(d, 3), Conv(d, Scale(d, 2)))
MixSame == Mode = "dist" => SameRates(Mix(<<d, d>>), d) /\ SameRates(Mix(<<d, e>>), Mix(<<e, d>>))

\* forwards and backwards errors are the same error on the two sides of the circuit
Sides == Mode = "circ" => \A a \in Assigns(gs, Model, Len(gs)) :
   /\ Push(N, gs, Backward(N, gs, a)) = Forward(N, gs, a)
   \* and the same operation as the circuit with the errors in
   /\ LET f == Forward(N, gs, a)
          w == NF(N, WithErrors(gs, a))
          u == NF(N, gs)
      IN \A p \in {On(N, <<j>>, <<x>>) : j \in 1..N, x \in {1, 3}} :
             Back(w, p) = (IF Commute(f, p) THEN Back(u, p) ELSE Times(Back(u, p), 2))
Weights == Mode = "circ" => FoldSet(LAMBDA a, acc : acc + Weight(gs, Model, a), 0, Assigns(gs, Model, Len(gs))) = Parts(gs, Model)
\* post-selection splits the shots, and does so one qubit at a time as well
Logical == Mode = "circ" =>
   LET ps == {Backward(N, gs, a) : a \in Assigns(gs, Model, Len(gs))}
       L == [total |-> Cardinality(ps) + 3, c |-> [p \in ps |-> 1]]
       s(q) == PostSel(L, q)
   IN /\ s({}) = L
      /\ PostSel(s({1}), {2}) = s({1, 2})
      /\ s({1}).total + Rejected(L, {1}) = L.total
      /\ Sums(s({1}).c) + 3 = s({1}).total
=============================================================================
