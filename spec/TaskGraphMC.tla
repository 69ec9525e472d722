---------------------------- MODULE TaskGraphMC ----------------------------
(* Design model: every building history of one graph (and one nested graph)  *)
(* up to MaxOps calls, against an independent denotation by terms.           *)
EXTENDS TaskGraphOps, TLC, Json

CONSTANTS MaxOps, Gen, Arities
Ar == {<<1,1>>, <<1,2>>, <<2,1>>, <<2,2>>}

VARIABLES G,     \* graph built by the calls (structural semantics)
          den,   \* its denotation: sequence of terms over inputs
          g2,    \* an inner graph, built the same way
          den2,
          ops    \* history of calls
vars == <<G, den, g2, den2, ops>>

Alphabet == {Task(<<"T", a[1], a[2]>>, a[1], a[2]) : a \in Arities}

In(k)      == <<"in", k>>
App(c, p, args) == <<"app", c.t, p, args>>

RECURSIVE Subst(_, _)
Subst(t, env) == IF t[1] = "in" THEN env[t[2]]
                 ELSE <<"app", t[2], t[3], [i \in DOMAIN t[4] |-> Subst(t[4][i], env)]>>

\* denotation of a component applied to argument terms
Apply(c, d, args) == IF c.k = "t" THEN [p \in 1..c.no |-> App(c, p, args)]
                     ELSE [p \in DOMAIN d |-> Subst(d[p], args)]

RECURSIVE TermOf(_, _)
TermOf(F, r) == IF r.path = <<>> THEN In(r.p)
                ELSE LET l == F.leaf[r.path]
                     IN <<"app", l.t, r.p, [i \in DOMAIN l.a |-> TermOf(F, l.a[i])]>>
Eval(X) == LET F == Flat(X) IN [i \in DOMAIN F.outs |-> TermOf(F, F.outs[i])]

Shift(c) == [k \in 1..NIn(c) |-> In(G.nin + k)]

CompD(c) == IF c.k = "g" THEN den2 ELSE <<>>
Comps == {[c |-> x, n |-> x.t] : x \in Alphabet} \cup {[c |-> g2, n |-> <<"g2">>]}

Append1(c) == /\ CanAppend(G, c)
              /\ G' = DoAppend(G, c, "L", Empty)
              /\ den' = Apply(c, CompD(c), den)
              /\ UNCHANGED <<g2, den2>>
Prepend1(c) == /\ CanPrepend(G, c)
               /\ G' = DoPrepend(G, c, "L", Empty)
               /\ LET args == [k \in 1..NIn(c) |-> In(k)]
                      env  == Apply(c, CompD(c), args)
                  IN den' = [i \in DOMAIN den |-> Subst(den[i], env)]
               /\ UNCHANGED <<g2, den2>>
Parallel1(c) == /\ G' = DoParallel(G, c, "L", Empty)
                /\ den' = den \o Apply(c, CompD(c), Shift(c))
                /\ UNCHANGED <<g2, den2>>
Wires1(k) == /\ G' = DoWires(G, k)
             /\ den' = den \o [j \in 1..k |-> In(G.nin + j)]
             /\ UNCHANGED <<g2, den2>>
\* the inner graph starts anew from the outer one (from_TaskGraph)
Copy == /\ g2' = G /\ den2' = den
        /\ UNCHANGED <<G, den>>
Reset == /\ G' = NewGraph("G") /\ den' = << In(1) >> /\ UNCHANGED <<g2, den2>>
Decomp == /\ ~NestedBare(G) /\ NestedCount(G) > 0
          /\ G' = Decompose(G) /\ UNCHANGED <<den, g2, den2>>

Log(o) == ops' = Append(ops, o)

Init == /\ G = NewGraph("G") /\ den = << In(1) >>
        /\ g2 = NewGraph("H") /\ den2 = << In(1) >>
        /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \/ \E x \in Comps : Append1(x.c) /\ Log(<<"append", x.n>>)
           \/ \E x \in Comps : Prepend1(x.c) /\ Log(<<"prepend", x.n>>)
           \/ \E x \in Comps : Parallel1(x.c) /\ Log(<<"parallel", x.n>>)
           \/ \E k \in 1..2 : Wires1(k) /\ Log(<<"wires", k>>)
           \/ G.nodes # <<>> /\ Copy /\ Log(<<"copy">>)
           \/ G.nodes # <<>> /\ g2 = G /\ Reset /\ Log(<<"reset">>)
           \/ Decomp /\ Log(<<"decompose">>)
Spec == Init /\ [][Next]_vars

Bound == Len(G.outs) <= 5 /\ G.nin <= 5
------------------------------------------------------------------------------
\* T01: the structure built denotes the composition
Denotes == Eval(G) = den
ArityOK == G.nin >= 1 /\ Len(G.outs) = Len(den)
\* every source is a real port, every node has its arity
WellFormed ==
  /\ \A i \in DOMAIN G.nodes : /\ Len(G.nodes[i].a) = NIn(G.nodes[i].c)
                               /\ \A q \in DOMAIN G.nodes[i].a :
                                    LET s == G.nodes[i].a[q]
                                    IN IF s[1] = 0 THEN s[2] \in 1..G.nin
                                       ELSE s[2] \in 1..NOut(G.nodes[s[1]].c)
\* every port feeds exactly one consumer
Consumers(s) ==
  Cardinality({<<i, q>> \in (DOMAIN G.nodes) \X (1..6) : q \in DOMAIN G.nodes[i].a /\ G.nodes[i].a[q] = s})
  + Cardinality({q \in DOMAIN G.outs : G.outs[q] = s})
Linear == /\ \A p \in 1..G.nin : Consumers(<<0, p>>) = 1
          /\ \A i \in DOMAIN G.nodes : \A p \in 1..NOut(G.nodes[i].c) : Consumers(<<i, p>>) = 1
\* T02
DecompOK == ~NestedBare(G) => /\ Eval(Decompose(G)) = den
                              /\ NestedCount(Decompose(G)) = 0
                              /\ Cardinality(Leaves(Decompose(G))) = Cardinality(Leaves(G))
\* generation: every history reached is a scenario for the implementation
Emit == Gen => PrintT("GEN " \o ToJson(ops))
View == <<G, den, g2, den2>>
=============================================================================
