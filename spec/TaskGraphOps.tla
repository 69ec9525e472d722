---------------------------- MODULE TaskGraphOps ----------------------------
(* Values and operations of qermit's task graphs.                            *)
(*                                                                           *)
(* A task is    [k |-> "t", t, ni, no, lab]                                  *)
(* A graph is   [k |-> "g", nin, nodes, outs, lab, ch]                       *)
(*   nodes : sequence of [c |-> task or graph, a |-> sequence of sources,    *)
(*           lab |-> label ("?" once decomposition has chosen it),           *)
(*           ch |-> characterisation the component brought along]            *)
(*   outs  : sequence of sources, one per output port                        *)
(* A source is  <<n, p>>: port p of node n, or input port p if n = 0.        *)
(* Graphs are values: using one as a component copies it, which is the       *)
(* isolation the library promises.                                           *)
EXTENDS Naturals, Sequences, FiniteSets

Task(t, ni, no) == [k |-> "t", t |-> t, ni |-> ni, no |-> no]

Empty == [x \in {} |-> 0]                       \* empty characterisation
Over(new, old) == [x \in DOMAIN new \cup DOMAIN old |->
                     IF x \in DOMAIN new THEN new[x] ELSE old[x]]

NewGraph(lab) == [k |-> "g", nin |-> 1, nodes |-> <<>>, outs |-> << <<0, 1>> >>,
                  lab |-> lab, ch |-> Empty]

NIn(c)  == IF c.k = "t" THEN c.ni ELSE c.nin
NOut(c) == IF c.k = "t" THEN c.no ELSE Len(c.outs)

Ports(n, k) == [p \in 1..k |-> <<n, p>>]

CanAppend(G, c)  == NIn(c) = Len(G.outs)
CanPrepend(G, c) == NOut(c) = G.nin

Node(c, lab, ch, a) == [c |-> c, a |-> a, lab |-> lab, ch |-> ch]

DoAppend(G, c, lab, ch) ==
  LET n == Len(G.nodes) + 1
  IN [G EXCEPT !.nodes = Append(@, Node(c, lab, ch, G.outs)),
               !.outs = Ports(n, NOut(c))]

DoPrepend(G, c, lab, ch) ==
  LET n == Len(G.nodes) + 1
      sh(s) == IF s[1] = 0 THEN <<n, s[2]>> ELSE s
      nd(x) == [x EXCEPT !.a = [i \in DOMAIN x.a |-> sh(x.a[i])]]
  IN [G EXCEPT !.nodes = Append([i \in DOMAIN G.nodes |-> nd(G.nodes[i])],
                                Node(c, lab, ch, Ports(0, NIn(c)))),
               !.outs = [i \in DOMAIN G.outs |-> sh(G.outs[i])],
               !.nin = NIn(c)]

DoParallel(G, c, lab, ch) ==
  LET n == Len(G.nodes) + 1
  IN [G EXCEPT !.nodes = Append(@, Node(c, lab, ch,
                            [p \in 1..NIn(c) |-> <<0, G.nin + p>>])),
               !.outs = @ \o Ports(n, NOut(c)),
               !.nin = @ + NIn(c)]

DoWires(G, k) ==
  [G EXCEPT !.outs = @ \o [p \in 1..k |-> <<0, G.nin + p>>], !.nin = @ + k]

(* A resolved source names the producing leaf by its path of node indices;   *)
(* the empty path is the input of the graph.                                 *)
RECURSIVE Res(_, _)
Res(G, s) ==
  IF s[1] = 0 THEN [path |-> <<>>, p |-> s[2]]
  ELSE LET c == G.nodes[s[1]].c IN
       IF c.k = "t" THEN [path |-> <<s[1]>>, p |-> s[2]]
       ELSE LET r == Res(c, c.outs[s[2]]) IN
            IF r.path = <<>> THEN Res(G, G.nodes[s[1]].a[r.p])
            ELSE [path |-> <<s[1]>> \o r.path, p |-> r.p]

RECURSIVE Leaves(_)
Leaves(G) ==
  UNION { IF G.nodes[i].c.k = "t" THEN {<<i>>}
          ELSE {<<i>> \o q : q \in Leaves(G.nodes[i].c)} : i \in DOMAIN G.nodes }

RECURSIVE LeafAt(_, _)
LeafAt(G, path) ==
  IF Len(path) = 1
  THEN [t |-> G.nodes[path[1]].c.t,
        no |-> G.nodes[path[1]].c.no,
        a |-> [i \in DOMAIN G.nodes[path[1]].a |-> Res(G, G.nodes[path[1]].a[i])]]
  ELSE LET in == LeafAt(G.nodes[path[1]].c, Tail(path))
           up(r) == IF r.path = <<>> THEN Res(G, G.nodes[path[1]].a[r.p])
                    ELSE [path |-> <<path[1]>> \o r.path, p |-> r.p]
       IN [in EXCEPT !.a = [i \in DOMAIN in.a |-> up(in.a[i])]]

(* The flat table of a graph: its leaves and the resolved outputs.           *)
Flat(G) == [leaf |-> [l \in Leaves(G) |-> LeafAt(G, l)],
            outs |-> [i \in DOMAIN G.outs |-> Res(G, G.outs[i])],
            nin  |-> G.nin]

(* Which nested graphs have a wire straight from input to output.            *)
RECURSIVE NestedBare(_)
NestedBare(G) ==
  \E i \in DOMAIN G.nodes :
     /\ G.nodes[i].c.k = "g"
     /\ \/ \E o \in DOMAIN G.nodes[i].c.outs : G.nodes[i].c.outs[o][1] = 0
        \/ NestedBare(G.nodes[i].c)

NestedCount(G) == Cardinality({i \in DOMAIN G.nodes : G.nodes[i].c.k = "g"})

(* Characterisation brought along by the component at a node and everything  *)
(* in it, as it becomes visible when the node at `path' is reached.          *)
RECURSIVE Brought(_, _)
Brought(G, path) ==
  LET n == G.nodes[path[1]]
      own == IF n.c.k = "g" THEN Over(n.c.ch, n.ch) ELSE n.ch
  IN IF Len(path) = 1 THEN own ELSE Over(own, Brought(n.c, Tail(path)))

(* Replacing the characterisation of a graph forgets what components brought *)
RECURSIVE ForgetNodes(_)
ForgetNodes(ns) ==
  [i \in DOMAIN ns |->
    IF ns[i].c.k = "g"
    THEN [ns[i] EXCEPT !.ch = Empty, !.c.ch = Empty, !.c.nodes = ForgetNodes(ns[i].c.nodes)]
    ELSE [ns[i] EXCEPT !.ch = Empty]]

(* One level of decomposition: node i of G, a nested graph, is replaced by   *)
(* its nodes.  Old index j stays j for j # i; i becomes a dead slot that is  *)
(* removed, and the inner nodes are added at the end.                        *)
Splice(G, i) ==
  LET g    == G.nodes[i].c
      base == Len(G.nodes) - 1
      mv(n) == IF n > i THEN n - 1 ELSE n
      RECURSIVE out(_)
      out(s) == IF s[1] = 0 THEN s
                ELSE IF s[1] = i
                     THEN LET r == g.outs[s[2]]
                          IN IF r[1] = 0 THEN out(G.nodes[i].a[r[2]])
                             ELSE <<base + r[1], r[2]>>
                     ELSE <<mv(s[1]), s[2]>>
      inn(s) == IF s[1] = 0 THEN out(G.nodes[i].a[s[2]]) ELSE <<base + s[1], s[2]>>
      keep == [j \in 1..base |-> LET x == G.nodes[IF j >= i THEN j + 1 ELSE j]
                                 IN [x EXCEPT !.a = [q \in DOMAIN x.a |-> out(x.a[q])]]]
      new  == [j \in DOMAIN g.nodes |->
                  [g.nodes[j] EXCEPT !.a = [q \in DOMAIN @ |-> inn(@[q])], !.lab = "?"]]
  IN [G EXCEPT !.nodes = keep \o new, !.outs = [q \in DOMAIN @ |-> out(@[q])]]

RECURSIVE Decompose(_)
Decompose(G) ==
  IF NestedCount(G) = 0 THEN G
  ELSE Decompose(Splice(G, CHOOSE i \in DOMAIN G.nodes : G.nodes[i].c.k = "g"))

=============================================================================
