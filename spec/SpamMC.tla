------------------------------- MODULE SpamMC --------------------------------
(* Calibrating and correcting as designed: every partition of the qubits in  *)
(* every order, every choice of (invertible, deterministic) readout of the   *)
(* subsets, every measured word, and every assignment of qubits to bits.     *)
EXTENDS Spam, Functions
CONSTANTS N
Q == 1..N
Orders == {s \in [1..N -> Q] : \A a, b \in 1..N : a # b => s[a] # s[b]}
Cuts == SUBSET (1..(N - 1))
RECURSIVE Split(_, _, _)
Split(s, cut, k) == IF k = N THEN <<SubSeq(s, k, k)>>
                    ELSE LET r == Split(s, cut, k + 1)
                         IN IF k \in cut THEN <<<<s[k]>>>> \o r ELSE <<<<s[k]>> \o r[1]>> \o Tail(r)
Partitions == {Split(s, c, 1) : s \in Orders, c \in Cuts}
(* A subset of d qubits in state x is read as x + shift (mod 2^d): never     *)
(* symmetric in its qubits.                                                  *)
Shift(part, k, x) == (x + k) % Two(Len(part))
VARIABLES parts, shift, bitof, truth, cals, mats, held, seen, out, pc
vars == <<parts, shift, bitof, truth, cals, mats, held, seen, out, pc>>
Init == /\ parts \in Partitions
        /\ shift \in [1..N -> 0..3] /\ \A x \in 1..N : x > Len(parts) => shift[x] = 0
        /\ bitof \in Orders /\ truth \in 0..(Two(N) - 1)
        /\ cals = <<>> /\ mats = <<>> /\ held = <<>> /\ seen = 0 /\ out = 0 /\ pc = "prepare"
\* all qubits' read values, given their prepared values
Device(vals) == [q \in Q |-> LET x == CHOOSE y \in DOMAIN parts : \E j \in DOMAIN parts[y] : parts[y][j] = q
                                 j == CHOOSE k \in DOMAIN parts[x] : parts[x][k] = q
                             IN Digit(Shift(parts[x], shift[x], Sub(vals, parts[x])), j, Len(parts[x]))]
\* the subsets are prepared in parallel: each in the first digits of the state of the largest
Prepare == /\ pc = "prepare" /\ pc' = "calibrate"
           /\ LET order == Larger(parts) D == Len(order[1]) IN
              cals' = [c \in 1..Two(D) |->
                 LET prep == [q \in Q |-> LET x == CHOOSE y \in DOMAIN parts : \E j \in DOMAIN parts[y] : parts[y][j] = q
                                              j == CHOOSE k \in DOMAIN parts[x] : parts[x][k] = q
                                          IN Digit(c - 1, j, D)]
                 IN [prep |-> prep, seen |-> <<<<Device(prep), 1>>>>]]
           /\ UNCHANGED <<parts, shift, bitof, truth, mats, held, seen, out>>
Learn == /\ pc = "calibrate" /\ pc' = "measure"
         /\ held' = Larger(parts) /\ mats' = [x \in DOMAIN parts |-> Calibrated(cals, Larger(parts)[x])]
         /\ UNCHANGED <<parts, shift, bitof, truth, cals, seen, out>>
\* word over the bits: qubit q is measured on bit bitof[q]
Onto(vals) == Word([b \in 1..N |-> vals[CHOOSE q \in Q : bitof[q] = b]])
Measure == /\ pc = "measure" /\ pc' = "correct"
           /\ seen' = Onto(Device([q \in Q |-> Digit(truth, q, N)]))
           /\ UNCHANGED <<parts, shift, bitof, truth, cals, mats, held, out>>
\* bits in the order of the matrices; every matrix is undone on its own digits
Correct == /\ pc = "correct" /\ pc' = "done"
           /\ LET order == FoldLeft(LAMBDA a, s : a \o [j \in DOMAIN s |-> bitof[s[j]]], <<>>, held)
                  v == At(seen, order, N)
                  start(x) == Sum([y \in 1..(x - 1) |-> Len(held[y])])
                  undo(w, x) == LET on == [j \in DOMAIN held[x] |-> start(x) + j]
                                    p == CHOOSE p \in 0..(Two(Len(on)) - 1) : mats[x][At(w, on, N) + 1][p + 1] > 0
                                IN With(w, on, p, N)
                  u == FoldLeft(undo, v, [x \in DOMAIN held |-> x])
              IN out' = Word([b \in 1..N |-> Digit(u, CHOOSE k \in 1..N : order[k] = b, N)])
           /\ UNCHANGED <<parts, shift, bitof, truth, cals, mats, held, seen>>
Next == Prepare \/ Learn \/ Measure \/ Correct
Spec == Init /\ [][Next]_vars
\* every column is a distribution: exactly the readout of its state
Columns == pc \in {"measure", "correct", "done"} =>
   \A x \in DOMAIN held : LET y == CHOOSE y \in DOMAIN parts : parts[y] = held[x] IN
     \A p \in DOMAIN mats[x] : /\ Column(mats[x], p) > 0
        /\ \A m \in DOMAIN mats[x] : mats[x][m][p] > 0 <=> m - 1 = Shift(held[x], shift[y], p - 1)
Undone == pc = "done" => out = Onto([q \in Q |-> Digit(truth, q, N)])
\* reading out what was corrected gives what was seen (the acceptance of S15)
Consistent == pc = "done" =>
   LET one(w) == [v \in 1..Two(N) |-> IF v = w + 1 THEN 1 ELSE 0]
       chs == [x \in DOMAIN held |-> [on |-> [j \in DOMAIN held[x] |-> bitof[held[x][j]]], mat |-> mats[x]]]
   IN ReadOut(one(out), chs, N) = one(seen)
=============================================================================
