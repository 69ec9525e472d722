------------------------------ MODULE Results -------------------------------
(* Results of running circuits: bags of shots, a shot being a valuation of   *)
(* classical bits.  Recorded as [bits |-> <<names>>, c |-> << <<vals, n>> >>]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

AddTo(f, k, n) == [x \in DOMAIN f \cup {k} |->
                     (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x = k THEN n ELSE 0)]
EmptyBag == [x \in {} |-> 0]
RECURSIVE BagOf(_, _, _)
\* bag of the first n entries of a sequence of <<element, count>>
BagOf(ps, op(_), n) == IF n = 0 THEN EmptyBag
                       ELSE AddTo(BagOf(ps, op, n - 1), op(ps[n][1]), ps[n][2])
Shot(bits, v) == [b \in {bits[j] : j \in DOMAIN bits} |-> v[CHOOSE j \in DOMAIN bits : bits[j] = b]]
\* the bag of shots a recorded result denotes, whatever order it stores its bits in
Bag(r) == LET f(v) == Shot(r.bits, v) IN BagOf(r.c, f, Len(r.c))
BitSet(r) == {r.bits[j] : j \in DOMAIN r.bits}

BagPlus(f, g) == [x \in DOMAIN f \cup DOMAIN g |->
                    (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in DOMAIN g THEN g[x] ELSE 0)]
RECURSIVE BagSum(_)
BagSum(s) == IF s = <<>> THEN EmptyBag ELSE BagPlus(s[1], BagSum(Tail(s)))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Size(f) == SumOver(f, DOMAIN f)
NoZeros(f) == [x \in {y \in DOMAIN f : f[y] # 0} |-> f[x]]
SameBagF(f, g) == NoZeros(f) = NoZeros(g)

\* keep only the bits B of every shot
Marginal(f, B) == LET pr(s) == [b \in B |-> s[b]]
                      im == {pr(s) : s \in DOMAIN f}
                  IN [t \in im |-> SumOver(f, {s \in DOMAIN f : pr(s) = t})]
Select(f, P(_)) == [s \in {t \in DOMAIN f : P(t)} |-> f[s]]
=============================================================================
