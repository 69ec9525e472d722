------------------------------ MODULE SchemeMC -------------------------------
(* Composed mitigation schemes.  A scheme is a tree; running it on a batch   *)
(* of requests is a call that returns one answer per request.  Every scheme  *)
(* of the library is of one of these shapes:                                 *)
(*   leaf   runs its batch on the device                                     *)
(*   map    hands on one job per request (compiling, measuring, gadgets)     *)
(*   many   hands on several jobs per request in a single batch and merges   *)
(*          neighbouring answers (frames, shot splitting, grids)             *)
(*   par    hands the batch to every subscheme, and merges their answers     *)
(*          position by position (zero noise extrapolation)                  *)
(*   cal    hands characterisation jobs to the first subscheme, then the     *)
(*          batch to the second (SPAM, DFSC, CDR, PEC)                       *)
(* The model runs calls one by one on a stack.                               *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Depth, Most, Copies, Gen

RECURSIVE Trees(_)
Leaf == [k |-> "leaf", s |-> <<>>]
Trees(d) == IF d = 0 THEN {Leaf}
            ELSE LET T == Trees(d - 1)
                 IN {Leaf} \cup {[k |-> kk, s |-> <<t>>] : kk \in {"map", "many"}, t \in T}
                           \cup {[k |-> kk, s |-> <<t, u>>] : kk \in {"par", "cal"}, t, u \in T}
VARIABLES tree, n, stack, ret, device, calls
vars == <<tree, n, stack, ret, device, calls>>
\* a frame: the scheme, its requests, and the answers its subschemes gave so far
Frame(t, rs) == [t |-> t, rs |-> rs, got |-> <<>>]
Requests(k) == [j \in 1..k |-> <<j>>]
Init == /\ tree \in Trees(Depth) /\ n \in 0..Most
        /\ stack = <<Frame(tree, Requests(n))>> /\ ret = <<"none">> /\ device = <<>> /\ calls = <<>>

Rep(rs) == [j \in 1..(Copies * Len(rs)) |-> Append(rs[(j - 1) \div Copies + 1], (j - 1) % Copies)]
Marked(rs, x) == [j \in DOMAIN rs |-> Append(rs[j], 100 * x)]
Cal == <<<<"cal", 1>>, <<"cal", 2>>>>
\* batch handed to the x'th subscheme
Hand(f, x) == CASE f.t.k = "map" -> f.rs [] f.t.k = "many" -> Rep(f.rs) [] f.t.k = "par" -> Marked(f.rs, x)
                [] f.t.k = "cal" -> IF x = 1 THEN Cal ELSE f.rs
Front1(s) == SubSeq(s, 1, Len(s) - 1)
\* answers to the frame's own requests: defined only if what came back belongs together
Answer(f) == CASE f.t.k = "map" -> f.got[1]
  [] f.t.k = "many" -> [j \in DOMAIN f.rs |-> Front1(f.got[1][(j - 1) * Copies + 1])]
  [] f.t.k = "par" -> [j \in DOMAIN f.rs |-> Front1(f.got[1][j])]
  [] f.t.k = "cal" -> f.got[2]
Belongs(f) == CASE f.t.k = "map" -> TRUE
  [] f.t.k = "many" -> /\ Len(f.got[1]) = Copies * Len(f.rs)
                       /\ \A j \in DOMAIN f.rs : \A c \in 1..Copies :
                            Front1(f.got[1][(j - 1) * Copies + c]) = Front1(f.got[1][(j - 1) * Copies + 1])
  [] f.t.k = "par" -> \A j \in DOMAIN f.rs : \A x \in DOMAIN f.got : Front1(f.got[x][j]) = Front1(f.got[1][j])
  [] f.t.k = "cal" -> f.got[1] = Cal

Top == stack[Len(stack)]
Device == /\ stack # <<>> /\ Top.t.k = "leaf" /\ ret = <<"none">>
          /\ device' = device \o Top.rs /\ ret' = <<"some", Top.rs>>
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ calls' = Append(calls, <<Top.rs, Top.rs>>)
          /\ UNCHANGED <<tree, n>>
Call == /\ stack # <<>> /\ Top.t.k # "leaf" /\ ret = <<"none">> /\ Len(Top.got) < Len(Top.t.s)
        /\ LET x == Len(Top.got) + 1 IN stack' = Append(stack, Frame(Top.t.s[x], Hand(Top, x)))
        /\ UNCHANGED <<tree, n, ret, device, calls>>
Take == /\ stack # <<>> /\ ret # <<"none">>
        /\ stack' = [stack EXCEPT ![Len(stack)].got = Append(@, ret[2])] /\ ret' = <<"none">>
        /\ UNCHANGED <<tree, n, device, calls>>
Leave == /\ stack # <<>> /\ Top.t.k # "leaf" /\ ret = <<"none">> /\ Len(Top.got) = Len(Top.t.s)
         /\ Belongs(Top) /\ ret' = <<"some", Answer(Top)>>
         /\ calls' = Append(calls, <<Top.rs, Answer(Top)>>)
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<tree, n, device>>
Next == Device \/ Call \/ Take \/ Leave
Spec == Init /\ [][Next]_vars
Done == stack = <<>>
\* one answer per request in order, at every level of the composition
Ordered == Done => ret = <<"some", Requests(n)>>
Levels == \A c \in DOMAIN calls : calls[c][1] = calls[c][2]
\* what comes back always belongs together: no call gets stuck
Together == (stack # <<>> /\ Top.t.k # "leaf" /\ Len(Top.got) = Len(Top.t.s)) => Belongs(Top)
\* work on the device: the size of every scheme, computed from its shape
RECURSIVE Jobs(_, _)
Jobs(t, k) == CASE t.k = "leaf" -> k [] t.k = "map" -> Jobs(t.s[1], k) [] t.k = "many" -> Jobs(t.s[1], Copies * k)
                [] t.k = "par" -> Jobs(t.s[1], k) + Jobs(t.s[2], k) [] t.k = "cal" -> Jobs(t.s[1], 2) + Jobs(t.s[2], k)
Work == Done => Len(device) = Jobs(tree, n)
Emit == (Gen /\ Len(stack) = 1 /\ Top.got = <<>> /\ device = <<>>) => PrintT("GEN " \o ToJson([tree |-> tree, n |-> n]))
=============================================================================
