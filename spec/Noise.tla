------------------------------- MODULE Noise --------------------------------
(* Pauli error distributions, logical errors, and errors carried through     *)
(* circuits.  A distribution gives each error a whole number of parts of D.  *)
EXTENDS Pauli, FiniteSetsExt, TLC

AllL(n) == [1..n -> 0..3]
IdL(n) == [j \in 1..n |-> 0]
MulL(a, b) == [j \in DOMAIN a |-> LMul(a[j], b[j])]
Sum(f, S) == FoldSet(LAMBDA x, acc : acc + f[x], 0, S)
Total(d) == Sum(d.r, DOMAIN d.r)
Valid(d) == Total(d) <= d.D
Free(d) == d.D - Total(d)
Supp(d) == {l \in DOMAIN d.r : d.r[l] > 0}

\* the channel: identity included
Full(d) == LET fr == Free(d) IN TLCEval([l \in AllL(d.n) |-> (IF l \in DOMAIN d.r THEN d.r[l] ELSE 0) + (IF l = IdL(d.n) THEN fr ELSE 0)])
Trim(n, D, f) == [n |-> n, D |-> D, r |-> TLCEval([l \in {x \in DOMAIN f : f[x] > 0 /\ x # IdL(n)} |-> f[l]])]
ConvF(f, g) == TLCEval([l \in DOMAIN f |-> FoldSet(LAMBDA x, acc : acc + f[x] * g[MulL(x, l)], 0, DOMAIN f)])
Conv(d, e) == Trim(d.n, d.D * e.D, ConvF(Full(d), Full(e)))
RECURSIVE Scale(_, _)
Scale(d, k) == IF k = 0 THEN [n |-> d.n, D |-> 1, r |-> [l \in {} |-> 0]] ELSE Conv(Scale(d, k - 1), d)
Transfer(d, l) == LET f == Full(d) IN FoldSet(LAMBDA x, acc : acc + (IF Anti(x, l) THEN -f[x] ELSE f[x]), 0, DOMAIN f)
\* mixture: all with the same D and n
Mix(ds) == [n |-> ds[1].n, D |-> ds[1].D * Len(ds),
            r |-> [l \in UNION {DOMAIN ds[k].r : k \in DOMAIN ds} |->
                     FoldLeft(LAMBDA acc, d : acc + (IF l \in DOMAIN d.r THEN d.r[l] ELSE 0), 0, ds)]]
SameRates(d, e) == d.n = e.n /\ \A l \in (DOMAIN d.r) \cup (DOMAIN e.r) :
      (IF l \in DOMAIN d.r THEN d.r[l] ELSE 0) * e.D = (IF l \in DOMAIN e.r THEN e.r[l] ELSE 0) * d.D

(* --- logical errors: counts of Paulis out of a number of shots ------------ *)
\* [n, total, c: Pauli -> count]; qs are the qubits to post-select on (positions)
Drop(l, qs) == [j \in DOMAIN l |-> IF j \in qs THEN 0 ELSE l[j]]
Flips(p, qs) == \E j \in qs : p.l[j] \in {1, 2}
DropP(p, qs) == [p EXCEPT !.l = Drop(p.l, qs)]
Rejected(L, qs) == Sum(L.c, {p \in DOMAIN L.c : Flips(p, qs)})
PostSel(L, qs) ==
   LET ok == {p \in DOMAIN L.c : ~Flips(p, qs)}
       ks == {DropP(p, qs) : p \in ok}
   IN [total |-> L.total - Rejected(L, qs),
       c |-> [k \in ks |-> Sum(L.c, {p \in ok : DropP(p, qs) = k})]]
ByString(L) == [l \in {p.l : p \in DOMAIN L.c} |-> Sum(L.c, {p \in DOMAIN L.c : p.l = l})]

(* --- errors after the noisy gates of a circuit ---------------------------- *)
\* m: gate name -> distribution.  An assignment of an error to each position.
Noisy(gs, m) == {k \in DOMAIN gs : gs[k].g \in DOMAIN m}
Outcomes(d) == Supp(d) \cup (IF Free(d) > 0 THEN {IdL(d.n)} ELSE {})
ErrOn(n, x, l) == On(n, x.q, l)
\* all assignments, as sequences over the gates (<<>> where no noise)
RECURSIVE Assigns(_, _, _)
Assigns(gs, m, k) == IF k = 0 THEN {<<>>} ELSE
   LET rest == Assigns(gs, m, k - 1)
   IN IF gs[k].g \in DOMAIN m THEN {Append(a, e) : a \in rest, e \in Outcomes(m[gs[k].g])}
      ELSE {Append(a, <<>>) : a \in rest}
\* the error at the end of the circuit, for assignment a
Forward(n, gs, a) == FoldLeftDomain(
   LAMBDA p, k : LET q == Push(n, <<gs[k]>>, p) IN IF a[k] = <<>> THEN q ELSE PMul(ErrOn(n, gs[k], a[k]), q), PId(n), gs)
\* ... at its beginning
Backward(n, gs, a) == FoldLeftDomain(
   LAMBDA p, j : LET k == Len(gs) + 1 - j
                     q == IF a[k] = <<>> THEN p ELSE PMul(p, ErrOn(n, gs[k], a[k]))
                 IN Pull(n, <<gs[k]>>, q), PId(n), gs)
\* parts of the assignment: product of the rates
Weight(gs, m, a) == FoldLeftDomain(LAMBDA acc, k : IF a[k] = <<>> THEN acc ELSE
      LET d == m[gs[k].g] IN acc * Full(d)[a[k]], 1, gs)
Parts(gs, m) == FoldLeftDomain(LAMBDA acc, k : IF gs[k].g \in DOMAIN m THEN acc * m[gs[k].g].D ELSE acc, 1, gs)
\* the circuit with the errors put in
WithErrors(gs, a) == FoldLeftDomain(
   LAMBDA acc, k : Append(acc, gs[k]) \o
      (IF a[k] = <<>> THEN <<>> ELSE FoldLeftDomain(
         LAMBDA ac, j : IF a[k][j] = 0 THEN ac ELSE Append(ac, [g |-> <<"X", "Y", "Z">>[a[k][j]], q |-> <<gs[k].q[j]>>, a |-> <<>>, b |-> <<>>]),
         <<>>, a[k])), <<>>, gs)
\* the operations met by each qubit and each bit, in order
WireOf(gs, w) == SelectSeq(gs, LAMBDA x : \E j \in DOMAIN x.q : x.q[j] = w)
BitOf(gs, b) == SelectSeq(gs, LAMBDA x : \E j \in DOMAIN x.b : x.b[j] = b)
SameDag(n, gs, hs) == LET bs == UNION {{gs[k].b[j] : j \in DOMAIN gs[k].b} : k \in DOMAIN gs}
                               \cup UNION {{hs[k].b[j] : j \in DOMAIN hs[k].b} : k \in DOMAIN hs}
   IN Len(gs) = Len(hs) /\ (\A w \in 1..n : WireOf(gs, w) = WireOf(hs, w)) /\ \A b \in bs : BitOf(gs, b) = BitOf(hs, b)
\* controlled-p on qubits 1..n, control n+1
Wide(l, c) == Append(l, c)
CtrlRots(n, p) ==
   LET rot(l, a) == [p |-> [ph |-> 0, l |-> l], a |-> a]
       body == IF p.l = PId(n).l THEN <<>>
               ELSE << rot(Wide(IdL(n), 3), Qt), rot(Wide(p.l, 0), Qt), rot(Wide(p.l, 3), -Qt) >>
   IN Append(body, rot(Wide(IdL(n), 3), p.ph * Qt))
CtrlNF(n, p) == FoldLeft(AddRot, NF0(n + 1), CtrlRots(n, p))
=============================================================================
