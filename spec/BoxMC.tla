------------------------------- MODULE BoxMC --------------------------------
(* Grouping the coloured nodes of a graph: any two groups may be merged as   *)
(* long as what remains after contracting every group is acyclic.            *)
EXTENDS Dag, TLC, Json
CONSTANTS N, MustColour
VARIABLES es, col, ps
vars == <<es, col, ps>>
Nodes == 1..N
Init == /\ es \in SUBSET {<<a, b>> \in Nodes \X Nodes : a < b}
        /\ col \in SUBSET Nodes /\ Cardinality(col) >= MustColour
        /\ ps = {{x} : x \in col}
Merge == \E a, b \in ps : /\ a # b
                          /\ Acyclic(Nodes, es, (ps \ {a, b}) \cup {a \cup b})
                          /\ ps' = (ps \ {a, b}) \cup {a \cup b}
                          /\ UNCHANGED <<es, col>>
Spec == Init /\ [][Merge]_vars
Covered == Cover(col, ps)
AllConvex == \A p \in ps : Convex(Nodes, es, p)
NoCycle == Acyclic(Nodes, es, ps)
\* what boxes need: an order of the groups in which every node follows what it depends on
Orderable == LET gs == Groups(Nodes, ps) IN
             \E f \in [1..Cardinality(gs) -> gs] : /\ \A x, y \in DOMAIN f : x # y => f[x] # f[y]
                /\ \A e \in es : \A x, y \in DOMAIN f : (e[1] \in f[x] /\ e[2] \in f[y]) => x <= y
Emit == (ps = {{x} : x \in col}) => PrintT("GEN " \o ToJson([n |-> N, es |-> es, col |-> col]))
=============================================================================
