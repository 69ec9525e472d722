------------------------------- MODULE Pauli --------------------------------
(* The Pauli group, Pauli rotations, and circuits as sequences of rotations. *)
(*                                                                           *)
(* Pauli      [ph |-> 0..3, l |-> letters], i^ph times a product of letters  *)
(*            0 = I, 1 = X, 2 = Y, 3 = Z, one per qubit 1..n                 *)
(* rotation   R(P, a) = exp(-i pi a/(4 Qt) P): a counts 1/Qt quarter turns,  *)
(*            so a = Qt is the Clifford quarter turn (S for P = Z)           *)
(* gate       [g |-> name, q |-> qubits, a |-> angles]                       *)
(* Everything is up to global phase of the circuit, exact for Paulis.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Qt == 2000

LMul(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN 0 ELSE 6 - a - b
LPh(a, b)  == IF a = 0 \/ b = 0 \/ a = b THEN 0 ELSE IF (b - a + 3) % 3 = 1 THEN 1 ELSE 3
PMul(p, q) == [ph |-> FoldLeftDomain(LAMBDA acc, j : acc + LPh(p.l[j], q.l[j]), p.ph + q.ph, p.l) % 4,
               l  |-> [j \in DOMAIN p.l |-> LMul(p.l[j], q.l[j])]]
PId(n)     == [ph |-> 0, l |-> [j \in 1..n |-> 0]]
Times(p, k) == [p EXCEPT !.ph = (@ + k) % 4]
Anti(p, q) == FoldLeftDomain(LAMBDA acc, j : IF p[j] # 0 /\ q[j] # 0 /\ p[j] # q[j] THEN acc + 1 ELSE acc, 0, p) % 2 = 1
Commute(p, q) == ~Anti(p.l, q.l)
\* inverse of a Pauli: letters are self-inverse
PInv(p) == [p EXCEPT !.ph = (4 - @) % 4]

On(n, qs, ls) == [ph |-> 0, l |-> [j \in 1..n |-> IF \E k \in DOMAIN qs : qs[k] = j
                                      THEN ls[CHOOSE k \in DOMAIN qs : qs[k] = j] ELSE 0]]

\* R(p, m quarter turns) q R(p, m quarter turns)^-1
QConj(p, m, q) == IF m % 4 = 0 \/ ~Anti(p.l, q.l) THEN q
                  ELSE IF m % 4 = 2 THEN Times(q, 2)
                  ELSE IF m % 4 = 1 THEN Times(PMul(p, q), 3)
                  ELSE Times(PMul(p, q), 1)

(* --- gates as rotations, in time order: << <<letters, angle>> >> ---------- *)
X1 == <<1>>  Y1 == <<2>>  Z1 == <<3>>
Defs(g, a) ==
  CASE g = "X" -> << <<X1, 2 * Qt>> >>
    [] g = "Y" -> << <<Y1, 2 * Qt>> >>
    [] g = "Z" -> << <<Z1, 2 * Qt>> >>
    [] g = "S" -> << <<Z1, Qt>> >>
    [] g = "Sdg" -> << <<Z1, -Qt>> >>
    [] g = "T" -> << <<Z1, Qt \div 2>> >>
    [] g = "Tdg" -> << <<Z1, -(Qt \div 2)>> >>
    [] g \in {"V", "SX"} -> << <<X1, Qt>> >>
    [] g \in {"Vdg", "SXdg"} -> << <<X1, -Qt>> >>
    [] g = "H" -> << <<Z1, Qt>>, <<X1, Qt>>, <<Z1, Qt>> >>
    [] g \in {"Rz", "U1"} -> << <<Z1, a[1]>> >>
    [] g = "Rx" -> << <<X1, a[1]>> >>
    [] g = "Ry" -> << <<Y1, a[1]>> >>
    [] g = "TK1" -> << <<Z1, a[3]>>, <<X1, a[2]>>, <<Z1, a[1]>> >>
    [] g = "U3" -> << <<Z1, a[3]>>, <<Y1, a[1]>>, <<Z1, a[2]>> >>
    [] g = "U2" -> << <<Z1, a[2]>>, <<Y1, Qt>>, <<Z1, a[1]>> >>
    [] g = "PhasedX" -> << <<Z1, -a[2]>>, <<X1, a[1]>>, <<Z1, a[2]>> >>
    [] g = "CX" -> << << <<3, 0>>, Qt>>, << <<0, 1>>, Qt>>, << <<3, 1>>, -Qt>> >>
    [] g = "CY" -> << << <<3, 0>>, Qt>>, << <<0, 2>>, Qt>>, << <<3, 2>>, -Qt>> >>
    [] g = "CZ" -> << << <<3, 0>>, Qt>>, << <<0, 3>>, Qt>>, << <<3, 3>>, -Qt>> >>
    [] g = "SWAP" -> << << <<1, 1>>, Qt>>, << <<2, 2>>, Qt>>, << <<3, 3>>, Qt>> >>
    [] g = "ZZMax" -> << << <<3, 3>>, Qt>> >>
    [] g = "ZZPhase" -> << << <<3, 3>>, a[1]>> >>
    [] g = "XXPhase" -> << << <<1, 1>>, a[1]>> >>
    [] g = "YYPhase" -> << << <<2, 2>>, a[1]>> >>
    [] g = "TK2" -> << << <<1, 1>>, a[1]>>, << <<2, 2>>, a[2]>>, << <<3, 3>>, a[3]>> >>
    [] g = "ISWAPMax" -> << << <<1, 1>>, -Qt>>, << <<2, 2>>, -Qt>> >>
    [] g = "ECR" -> << << <<3, 1>>, Qt>>, << <<1, 0>>, 2 * Qt>> >>
    [] g = "BRIDGE" -> << << <<3, 0, 0>>, Qt>>, << <<0, 0, 1>>, Qt>>, << <<3, 0, 1>>, -Qt>> >>
    [] g = "CRz" -> << << <<0, 3>>, a[1] \div 2>>, << <<3, 3>>, -(a[1] \div 2)>> >>
    [] g \in {"noop", "Barrier", "Phase"} -> <<>>

Rots(n, x) == LET d == Defs(x.g, x.a) IN [k \in DOMAIN d |-> [p |-> On(n, x.q, d[k][1]), a |-> d[k][2]]]
AllRots(n, gs) == FoldLeft(LAMBDA acc, x : acc \o Rots(n, x), <<>>, gs)
IsClifford(n, gs) == \A k \in DOMAIN gs : \A r \in {Defs(gs[k].g, gs[k].a)[j] : j \in DOMAIN Defs(gs[k].g, gs[k].a)} : r[2] % Qt = 0

\* the Pauli after the circuit, for a Clifford circuit:  U p U^-1 ...
Push(n, gs, p) == FoldLeft(LAMBDA acc, r : QConj(r.p, (r.a \div Qt) % 4, acc), p, AllRots(n, gs))
\* ... and before it: U^-1 p U
Pull(n, gs, p) == FoldLeft(LAMBDA acc, r : QConj(r.p, (4 - ((r.a \div Qt) % 4)) % 4, acc), p, Reverse(AllRots(n, gs)))

(* --- normal form of any circuit ------------------------------------------- *)
(* U = C . R(P_k, a_k) ... R(P_1, a_1) with C Clifford, given by the images   *)
(* C^-1 X_q C and C^-1 Z_q C, and non-Clifford rotations 0 < a < Qt, reduced: *)
(* no rotation can be moved next to another about the same Pauli.             *)
NF0(n) == [n |-> n,
           x |-> [q \in 1..n |-> On(n, <<q>>, X1)],
           z |-> [q \in 1..n |-> On(n, <<q>>, Z1)],
           rs |-> <<>>]
Back(s, p) == FoldLeftDomain(
    LAMBDA acc, q : CASE p.l[q] = 0 -> acc
                      [] p.l[q] = 1 -> PMul(acc, s.x[q])
                      [] p.l[q] = 3 -> PMul(acc, s.z[q])
                      [] p.l[q] = 2 -> Times(PMul(acc, PMul(s.x[q], s.z[q])), 1),
    [PId(s.n) EXCEPT !.ph = p.ph], p.l)
Quarter(s, p, m) == IF m % 4 = 0 THEN s ELSE
    [s EXCEPT !.x = [q \in DOMAIN @ |-> QConj(p, 4 - (m % 4), @[q])],
              !.z = [q \in DOMAIN @ |-> QConj(p, 4 - (m % 4), @[q])]]
\* last position whose rotation stops p from moving further to the past, or is about p
RECURSIVE Stop(_, _, _)
Stop(rs, l, k) == IF k = 0 THEN 0 ELSE IF rs[k].l = l \/ Anti(rs[k].l, l) THEN k ELSE Stop(rs, l, k - 1)
Insert(s, p, a) ==   \* p with positive sign, 0 < a < Qt
  LET k == Stop(s.rs, p.l, Len(s.rs))
  IN IF k > 0 /\ s.rs[k].l = p.l
     THEN LET t == s.rs[k].a + a
              m == t \div Qt
              r == t % Qt
          IN Quarter([s EXCEPT !.rs = IF r = 0 THEN RemoveAt(@, k) ELSE [@ EXCEPT ![k].a = r]], p, m)
     ELSE [s EXCEPT !.rs = Append(@, [l |-> p.l, a |-> a])]
AddRot(s, r) ==
  LET b == Back(s, r.p)
      a == (IF b.ph = 2 THEN -r.a ELSE r.a) % (4 * Qt)
      p == [b EXCEPT !.ph = 0]
      t == Quarter(s, p, a \div Qt)
  IN IF a % Qt = 0 \/ p = PId(s.n) THEN t ELSE Insert(t, p, a % Qt)
NFrom(s, gs) == FoldLeft(AddRot, s, AllRots(s.n, gs))
NF(n, gs) == NFrom(NF0(n), gs)
\* rotations in layers, so that the order of commuting ones does not matter
Layers(rs) ==
  LET lay == FoldLeft(LAMBDA acc, r : Append(acc,
                 1 + FoldLeftDomain(LAMBDA m, j : IF Anti(rs[j].l, r.l) /\ acc[j] > m THEN acc[j] ELSE m, 0, acc)),
               <<>>, rs)
  IN {<<lay[k], rs[k].l, rs[k].a>> : k \in DOMAIN rs}
SameNF(s, t) == s.n = t.n /\ s.x = t.x /\ s.z = t.z /\ Layers(s.rs) = Layers(t.rs)
\* the two gate sequences are the same operation up to global phase
SameOp(n, gs, hs) == SameNF(NF(n, gs), NF(n, hs))
\* ... up to a Pauli applied after
UpToPauli(s, t) == /\ s.n = t.n /\ Layers(s.rs) = Layers(t.rs)
                   /\ \A q \in DOMAIN s.x : s.x[q].l = t.x[q].l /\ s.z[q].l = t.z[q].l

Names1 == {"X", "Y", "Z", "S", "Sdg", "V", "Vdg", "SX", "SXdg", "H"}
InvName(g) == CASE g = "S" -> "Sdg" [] g = "Sdg" -> "S" [] g = "V" -> "Vdg" [] g = "Vdg" -> "V"
                [] g = "SX" -> "SXdg" [] g = "SXdg" -> "SX" [] g = "T" -> "Tdg" [] g = "Tdg" -> "T" [] OTHER -> g
InvAngles(g, a) == IF g = "TK1" THEN <<-a[3], -a[2], -a[1]>>
                   ELSE IF g = "U3" THEN <<-a[1], -a[3], -a[2]>>
                   ELSE IF g = "PhasedX" THEN <<-a[1], a[2]>>
                   ELSE [k \in DOMAIN a |-> -a[k]]
InvGate(x) == IF x.g = "ZZMax" THEN [g |-> "ZZPhase", q |-> x.q, a |-> <<-Qt>>]
              ELSE [g |-> InvName(x.g), q |-> x.q, a |-> InvAngles(x.g, x.a)]
InvCirc(gs) == Reverse([k \in DOMAIN gs |-> InvGate(gs[k])])
=============================================================================
