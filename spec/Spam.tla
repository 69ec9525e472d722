-------------------------------- MODULE Spam ---------------------------------
(* State preparation and measurement correction.  Qubits are 1..n.  A        *)
(* partition is a sequence of sequences of qubits: its parts are the         *)
(* correlated subsets.  A word over d positions is a number, the first       *)
(* position most significant.  A matrix is read m[measured + 1][prepared+1]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
\* digit of position p in word w over d positions
Digit(w, p, d) == (w \div Two(d - p)) % 2
Word(bs) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, bs)
\* the word at positions s of a word over d positions
At(w, s, d) == Word([j \in DOMAIN s |-> Digit(w, s[j], d)])
\* w with the positions s replaced by the word v
With(w, s, v, d) == Word([p \in 1..d |-> IF \E j \in DOMAIN s : s[j] = p
                                        THEN Digit(v, CHOOSE j \in DOMAIN s : s[j] = p, Len(s)) ELSE Digit(w, p, d)])
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

(* The matrices are held from the largest subset to the smallest.            *)
Larger(parts) == LET big == FoldLeft(LAMBDA a, s : IF Len(s) > a THEN Len(s) ELSE a, 0, parts)
                     of(l) == SelectSeq(parts, LAMBDA s : Len(s) = l)
                 IN FoldLeft(LAMBDA acc, l : acc \o of(l), <<>>, [j \in 1..big |-> big + 1 - j])

(* Calibration.  A calibration circuit prepares a basis state prep[q] of     *)
(* every qubit; seen is its outcomes <<values of the qubits, how often>>.    *)
Sub(vals, part) == Word([j \in DOMAIN part |-> vals[part[j]]])
Counted(cals, part, m, p) ==
   FoldLeft(LAMBDA a, c : IF Sub(c.prep, part) # p THEN a
                          ELSE a + FoldLeft(LAMBDA b, o : IF Sub(o[1], part) = m THEN b + o[2] ELSE b, 0, c.seen), 0, cals)
Calibrated(cals, part) ==
   LET D == Two(Len(part)) IN [m \in 1..D |-> [p \in 1..D |-> Counted(cals, part, m - 1, p - 1)]]
Column(mat, p) == Sum([m \in DOMAIN mat |-> mat[m][p]])

(* The map of a subset of which only the positions keep are measured: the    *)
(* others are taken to be prepared and read as 0.                            *)
Spread(v, keep, d) == With(0, keep, v, d)
Reduced(mat, keep, d) ==
   LET K == Two(Len(keep)) IN [m \in 1..K |-> [p \in 1..K |-> mat[Spread(m - 1, keep, d) + 1][Spread(p - 1, keep, d) + 1]]]

(* Reading out: a channel acts on the positions `on' of a table of counts    *)
(* (one for every word over d positions).                                    *)
Unit == 10000
Share(mat, m, p) == (2 * Unit * mat[m][p] + Column(mat, p)) \div (2 * Column(mat, p))
Through(tab, ch, d) ==
   LET k == Len(ch.on)  S == TLCEval([m \in 1..Two(k) |-> [p \in 1..Two(k) |-> Share(ch.mat, m, p)]])
   IN [w \in 1..Two(d) |-> (Sum([v \in 1..Two(k) |-> S[At(w - 1, ch.on, d) + 1][v] * tab[With(w - 1, ch.on, v - 1, d) + 1]]) + Unit \div 2) \div Unit]
ReadOut(tab, chs, d) == FoldLeft(LAMBDA a, ch : TLCEval(Through(a, ch, d)), tab, chs)

(* Where the outcomes of a circuit come from.  A circuit is a sequence of    *)
(* <<"M", qubit, bit>> measurements and <<"U", qubit, 0>> other gates.       *)
LastWrite(gs, b) == LET W == {j \in DOMAIN gs : gs[j][1] = "M" /\ gs[j][3] = b}
                    IN IF W = {} THEN 0 ELSE CHOOSE j \in W : \A k \in W : k <= j
Ends(gs, j) == \A k \in DOMAIN gs : k > j => gs[k][2] # gs[j][2]
\* bit that holds the final measurement of a qubit, 0 if none
FinalBit(gs, q, d) == LET B == {b \in 1..d : LET j == LastWrite(gs, b) IN j # 0 /\ gs[j][2] = q /\ Ends(gs, j)}
                      IN IF B = {} THEN 0 ELSE CHOOSE b \in B : TRUE
(* Final measurements of a subset are read together, those that are followed *)
(* by more gates one by one, and bits that are not measured exactly.         *)
Channels(gs, d, parts, mats) ==
   LET final(x) == LET part == parts[x]
                       keep == SelectSeq([j \in DOMAIN part |-> j], LAMBDA j : FinalBit(gs, part[j], d) # 0)
                   IN [on |-> [j \in DOMAIN keep |-> FinalBit(gs, part[keep[j]], d)],
                       mat |-> Reduced(mats[x], keep, Len(part))]
       mid(b) == LET q == gs[LastWrite(gs, b)][2]
                     x == CHOOSE y \in DOMAIN parts : \E j \in DOMAIN parts[y] : parts[y][j] = q
                     j == CHOOSE k \in DOMAIN parts[x] : parts[x][k] = q
                 IN [on |-> <<b>>, mat |-> Reduced(mats[x], <<j>>, Len(parts[x]))]
       mids == SelectSeq([b \in 1..d |-> b], LAMBDA b : LET j == LastWrite(gs, b) IN j # 0 /\ ~Ends(gs, j))
   IN SelectSeq([x \in DOMAIN parts |-> final(x)], LAMBDA c : Len(c.on) > 0) \o [j \in DOMAIN mids |-> mid(mids[j])]
=============================================================================
