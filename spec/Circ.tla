-------------------------------- MODULE Circ ---------------------------------
(* Whole circuits: gates, and operations that are not unitary.               *)
(*                                                                           *)
(* Measurements, resets and conditional operations carry a number t of their *)
(* own (odd, so no quarter turn, and the same for the same operation on the  *)
(* same wires).  A rotation by that angle stands for the operation and is    *)
(* kept apart from everything it must not be moved across: diagonal on a     *)
(* measured qubit, diagonal on a bit that is read, and not diagonal on any   *)
(* other wire.  Bits are wires of their own, above the qubits.               *)
(*   [g, q, a] or [g, q, t, r |-> bits read, w |-> bits written]             *)
EXTENDS Noise

R1(g, w, t) == [g |-> g, q |-> << w >>, a |-> << t >>]
Still(ws, t) == [j \in DOMAIN ws |-> R1("Rz", ws[j], t)]
Stir(ws, t) == FoldLeft(LAMBDA acc, w : acc \o << R1("Rz", w, t), R1("Rx", w, t) >>, <<>>, ws)
NoOps == {"Barrier", "noop", "Phase"}
Plain(x) == CASE x.g \in NoOps -> <<>>
              [] "t" \in DOMAIN x -> (IF x.g = "Measure" THEN Still(x.q, x.t) ELSE Stir(x.q, x.t)) \o Still(x.r, x.t) \o Stir(x.w, x.t)
              [] OTHER -> << x >>
Formal(gs) == FoldLeft(LAMBDA acc, x : acc \o Plain(x), <<>>, gs)
\* the same operation, measurements and all, on m wires
SameCirc(m, gs, hs) == SameNF(TLCEval(NF(m, Formal(gs))), TLCEval(NF(m, Formal(hs))))
\* the same operations in the same order on every wire, bits included
On1(gs, w) == SelectSeq(gs, LAMBDA x : (\E j \in DOMAIN x.q : x.q[j] = w) \/ ("t" \in DOMAIN x /\ (w \in {x.r[j] : j \in DOMAIN x.r} \cup {x.w[j] : j \in DOMAIN x.w})))
SameWires(m, gs, hs) == Len(gs) = Len(hs) /\ \A w \in 1..m : On1(gs, w) = On1(hs, w)
IsOp(x) == x.g \notin NoOps
Ops(gs) == SelectSeq(gs, IsOp)
NOps(gs) == Len(Ops(gs))
TwoQ(gs) == SelectSeq(gs, LAMBDA x : IsOp(x) /\ Len(x.q) = 2)
=============================================================================
