----------------------------- MODULE TrackerOps -----------------------------
(* Observable trackers as values.                                            *)
(*   operator : function from strings to integer coefficients                *)
(*   tracker  : [co |-> operator,                                            *)
(*               ix |-> string -> sequence of [c, b, v]: circuit index,      *)
(*                      bits, invert,                                        *)
(*               cs |-> sequence of circuit names]                           *)
(* Trackers are values: creating, copying or extending copies, so nothing is *)
(* ever shared.                                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

None == [s \in {} |-> 0]
Plus(f, g) == [s \in DOMAIN f \cup DOMAIN g |->
                 (IF s \in DOMAIN f THEN f[s] ELSE 0) + (IF s \in DOMAIN g THEN g[s] ELSE 0)]
NewT(o)  == [co |-> o, ix |-> [s \in DOMAIN o |-> <<>>], cs |-> <<>>]
Strs(t)  == DOMAIN t.co

DoExtend(t, o) == [t EXCEPT !.co = Plus(@, o),
     !.ix = [s \in DOMAIN t.co \cup DOMAIN o |-> IF s \in DOMAIN t.ix THEN t.ix[s] ELSE <<>>]]
\* pairs <<string, coefficient>>, later ones win; refused as a whole if a string is unknown
CanModify(t, ps) == \A k \in DOMAIN ps : ps[k][1] \in Strs(t)
DoModify(t, ps) == [t EXCEPT !.co = [s \in DOMAIN @ |->
     LET m == {k \in DOMAIN ps : ps[k][1] = s}
     IN IF m = {} THEN @[s] ELSE ps[CHOOSE k \in m : \A q \in m : q <= k][2]]]
DoRemove(t, S) == [t EXCEPT !.co = [s \in DOMAIN @ \ S |-> @[s]],
                            !.ix = [s \in DOMAIN @ \ S |-> @[s]]]
\* infos <<string, bits, invert>>
CanAdd(t, infos) == \A k \in DOMAIN infos : infos[k][1] \in Strs(t)
DoAdd(t, c, infos) ==
  LET n == Len(t.cs)     \* indices count from 0
      mine(s) == LET own == SelectSeq(infos, LAMBDA x : x[1] = s)
                 IN [k \in DOMAIN own |-> [c |-> n, b |-> own[k][2], v |-> own[k][3]]]
  IN [t EXCEPT !.cs = Append(@, c), !.ix = [s \in DOMAIN @ |-> @[s] \o mine(s)]]
DoClear(t) == NewT(t.co)

Unmeasured(t) == {s \in Strs(t) : t.ix[s] = <<>>}
CircsOf(t, s) == [k \in DOMAIN t.ix[s] |-> t.cs[t.ix[s][k].c + 1]]
\* every index points at a registered circuit
Consistent(t) == /\ DOMAIN t.ix = DOMAIN t.co
                 /\ \A s \in Strs(t) : \A k \in DOMAIN t.ix[s] : t.ix[s][k].c \in 0..(Len(t.cs) - 1)

\* parity expectation times the number of shots N: results[j] = << <<valuation, count>> >>
RECURSIVE Par(_, _)
Par(v, b) == IF b = <<>> THEN 1 ELSE (IF v[b[1] + 1] = 1 THEN -1 ELSE 1) * Par(v, Tail(b))
RECURSIVE ParSum(_, _)
ParSum(cnt, b) == IF cnt = <<>> THEN 0 ELSE cnt[1][2] * Par(cnt[1][1], b) + ParSum(Tail(cnt), b)
RECURSIVE ExpOf(_, _)
ExpOf(infos, res) == IF infos = <<>> THEN 0
    ELSE (IF infos[1].v THEN -1 ELSE 1) * ParSum(res[infos[1].c + 1], infos[1].b) + ExpOf(Tail(infos), res)
Expect(t, s, res) == t.co[s] * ExpOf(t.ix[s], res)
Enough(t, res) == \A s \in Strs(t) : \A k \in DOMAIN t.ix[s] : t.ix[s][k].c < Len(res)
=============================================================================
