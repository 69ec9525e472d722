-------------------------------- MODULE Dag ---------------------------------
(* Graphs with edges from smaller to larger nodes, and groups of nodes.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Succ(es, S) == {e[2] : e \in {x \in es : x[1] \in S}}
RECURSIVE Grow(_, _)
Grow(es, S) == LET T == S \cup Succ(es, S) IN IF T = S THEN S ELSE Grow(es, T)
Below(es, x) == Grow(es, Succ(es, {x}))              \* nodes after x
Cover(col, ps) == UNION ps = col /\ {} \notin ps /\ \A p, q \in ps : p = q \/ p \cap q = {}
Convex(ns, es, p) == \A x \in ns \ p : ~(\E a \in p : x \in Below(es, a)) \/ ~(\E b \in p : b \in Below(es, x))
Groups(ns, ps) == ps \cup {{x} : x \in ns \ UNION ps}
Contract(ns, es, ps) == LET gs == Groups(ns, ps) IN
   {<<p, q>> \in gs \X gs : p # q /\ \E e \in es : e[1] \in p /\ e[2] \in q}
Acyclic(ns, es, ps) == LET c == Contract(ns, es, ps) IN \A p \in Groups(ns, ps) : p \notin Below(c, p)
=============================================================================
