--------------------------- MODULE TaskGraphTrace ---------------------------
(* Traces of the real TaskGraph against TaskGraphOps.  One action per public *)
(* call; a run is Begin, one Call per executed leaf task, End.               *)
EXTENDS TraceKit, TaskGraphOps

Kv(ps) == FromPairs(ps)

S0(s) == [gs   |-> [g \in {} |-> 0],                   \* graphs by name
          tch  |-> [t \in {s.tasks[j][1] : j \in DOMAIN s.tasks} |-> Empty],
          ar   |-> [t \in {s.tasks[j][1] : j \in DOMAIN s.tasks} |->
                      LET j == CHOOSE q \in DOMAIN s.tasks : s.tasks[q][1] = t
                      IN [ni |-> s.tasks[j][2], no |-> s.tasks[j][3]]],
          run  |-> [on |-> FALSE],
          cache|-> [g \in {} |-> <<>>]]                \* cache contents by graph

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* what each public observer must report for every graph after the event
Obs(s) == { <<"T01.n_in", \A o \in ToSet(E.obs) : o.nin = s.gs[o.g].nin>>,
            <<"T01.n_out", \A o \in ToSet(E.obs) : o.nout = Len(s.gs[o.g].outs)>>,
            <<"T03.tasks", \A o \in ToSet(E.obs) : (o.g # E.g /\ s.gs[o.g].sure) =>
                    /\ Len(o.labels) = Len(s.gs[o.g].nodes)
                    /\ o.nested = NestedCount(s.gs[o.g])>>,
            <<"T04.tasks", \A o \in ToSet(E.obs) : o.g = E.g =>
                    (s.gs[o.g].sure => Len(o.labels) = Len(s.gs[o.g].nodes))>>,
            <<"T03.labels", \A o \in ToSet(E.obs) :
                 (\A j \in DOMAIN s.gs[o.g].nodes : s.gs[o.g].nodes[j].lab # "?") =>
                 SameBag(o.labels, [j \in DOMAIN s.gs[o.g].nodes |-> s.gs[o.g].nodes[j].lab])>>,
            <<"T05.char", \A o \in ToSet(E.obs) : o.g = E.g => Kv(o.char) = s.gs[o.g].ch>>,
            <<"T03.char", \A o \in ToSet(E.obs) : o.g # E.g => Kv(o.char) = s.gs[o.g].ch>>,
            <<"T03.taskchar", \A o \in ToSet(E.tobs) : Kv(o.char) = s.tch[o.t]>>,
            <<"T03.tasklabel", \A o \in ToSet(E.tobs) : o.label = o.t>> }

New == /\ Is("new")
       /\ LET s == [st EXCEPT !.gs = Put(@, E.g, NewGraph(E.g) @@ [sure |-> TRUE]),
                              !.cache = Put(@, E.g, <<>>)]
          IN Goto(s) /\ Note(Obs(s))

Comp(c, ck) == IF ck = "task" THEN Task(c, st.ar[c].ni, st.ar[c].no) ELSE st.gs[c]
CompCh(c, ck) == IF ck = "task" THEN st.tch[c] ELSE Empty
Lab(c, ck) == IF ck = "task" THEN c ELSE st.gs[c].lab

Build == /\ More /\ E.op \in {"append", "prepend", "parallel"}
         /\ LET G == st.gs[E.g]
                c == Comp(E.c, E.ck)
                fits == CASE E.op = "append" -> CanAppend(G, c)
                          [] E.op = "prepend" -> CanPrepend(G, c)
                          [] OTHER -> TRUE
                new == CASE E.op = "append" -> DoAppend(G, c, Lab(E.c, E.ck), CompCh(E.c, E.ck))
                         [] E.op = "prepend" -> DoPrepend(G, c, Lab(E.c, E.ck), CompCh(E.c, E.ck))
                         [] OTHER -> DoParallel(G, c, Lab(E.c, E.ck), CompCh(E.c, E.ck))
                s == IF fits THEN [st EXCEPT !.gs[E.g] = new] ELSE st
            IN Goto(s) /\ Note(Obs(s) \cup {<<"T01.accept", fits => E.ok>>, <<"T01.refuse", ~fits => ~E.ok>>})

Wires == /\ Is("wires")
         /\ LET s == [st EXCEPT !.gs[E.g] = DoWires(@, E.n)] IN Goto(s) /\ Note(Obs(s))

\* h := TaskGraph().from_TaskGraph(g)
Copy == /\ Is("copy")
        /\ LET s == [st EXCEPT !.gs = Put(@, E.g, st.gs[E.from]), !.cache = Put(@, E.g, <<>>)]
           IN Goto(s) /\ Note(Obs(s))

Dec == /\ Is("decompose")
       /\ LET G == st.gs[E.g]
              refuse == NestedBare(G)
              D == Decompose(G)
              s == IF ~refuse THEN [st EXCEPT !.gs[E.g] = D]
                   ELSE [st EXCEPT !.gs[E.g].sure = FALSE,
                                   !.gs[E.g].nodes = [j \in DOMAIN @ |-> [@[j] EXCEPT !.lab = "?"]]]
          IN Goto(s) /\ Note(Obs(s) \cup
               {<<"T02.accept", ~refuse => E.ok>>,
                <<"T02.refuse", refuse => ~E.ok /\ E.exc = "ValueError">>,
                <<"T02.nested", \A o \in ToSet(E.obs) : (o.g = E.g /\ ~refuse) =>
                      o.nested = 0 /\ Len(o.labels) = Len(D.nodes)>>})

SetChar == /\ More /\ E.op \in {"setchar", "updchar"}
           /\ LET G == st.gs[E.g]
                  H == IF E.op = "setchar"
                       THEN [G EXCEPT !.ch = Kv(E.kv), !.nodes = ForgetNodes(@)]
                       ELSE [G EXCEPT !.ch = Over(Kv(E.kv), @)]
                  s == [st EXCEPT !.gs[E.g] = H]
              IN Goto(s) /\ Note(Obs(s))

TaskChar == /\ Is("taskchar")
            /\ LET s == [st EXCEPT !.tch[E.t] = Kv(E.kv)] IN Goto(s) /\ Note(Obs(s))

(* ------------------------------- runs ------------------------------------ *)
\* keys held by nested graphs without any task: when these are handed over
\* relative to tasks they are not connected to is not specified
RECURSIVE LooseKeys(_)
LooseKeys(G) == UNION {LET n == G.nodes[j] IN
     IF n.c.k = "t" THEN {}
     ELSE IF Leaves(n.c) = {} THEN DOMAIN n.c.ch \cup DOMAIN n.ch \cup LooseKeys(n.c)
     ELSE LooseKeys(n.c) : j \in DOMAIN G.nodes}
Restrict(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]

Labels(G) == [j \in DOMAIN G.nodes |-> G.nodes[j].lab]
Unique(s) == Cardinality(ToSet(s)) = Len(s)

Begin == /\ Is("begin")
         /\ LET G == st.gs[E.g]
            IN Goto([st EXCEPT !.run =
                 [on |-> TRUE, g |-> E.g, flat |-> Flat(G), ins |-> E.ins, cache |-> E.cache, labels |-> E.labels,
                  refuse |-> E.cache /\ ~Unique(E.labels),
                  glob |-> Over(Kv(E.char), G.ch),
                  entered |-> {}, loose |-> LooseKeys(G),
                  env |-> [x \in {} |-> <<>>]]])   \* leaf path -> output values
         /\ Note({<<"T04.labels", \A j \in DOMAIN st.gs[E.g].nodes :
                      st.gs[E.g].nodes[j].lab # "?" => \E q \in DOMAIN E.labels : E.labels[q] = st.gs[E.g].nodes[j].lab>>})

Known(r, s) == s.path = <<>> \/ s.path \in DOMAIN r.env
Val(r, s) == IF s.path = <<>> THEN (IF s.p \in DOMAIN r.ins THEN r.ins[s.p] ELSE 0 - 1)
             ELSE IF s.p \in DOMAIN r.env[s.path] THEN r.env[s.path][s.p] ELSE 0 - 1
Ready(r, l) == \A q \in DOMAIN r.flat.leaf[l].a : Known(r, r.flat.leaf[l].a[q])
ArgsOf(r, l) == [q \in DOMAIN r.flat.leaf[l].a |-> Val(r, r.flat.leaf[l].a[q])]

Prefixes(p) == {SubSeq(p, 1, n) : n \in 1..Len(p)}
RECURSIVE BroughtBy(_, _, _)
\* what becomes visible on the way to leaf `path', skipping nodes entered before
BroughtBy(G, path, done) ==
  LET n == G.nodes[path[1]]
      own == IF <<path[1]>> \in done THEN Empty
             ELSE IF n.c.k = "g" THEN Over(n.c.ch, n.ch) ELSE n.ch
      sub == {Tail(q) : q \in {z \in done : Len(z) > 1 /\ z[1] = path[1]}}
  IN IF Len(path) = 1 THEN own ELSE Over(own, BroughtBy(n.c, Tail(path), sub))


Call == /\ Is("call")
        /\ LET r == st.run
               named == {l \in DOMAIN r.flat.leaf : r.flat.leaf[l].t = E.t /\ l \notin DOMAIN r.env}
               ready == {l \in named : Ready(r, l)}
               good  == {l \in ready : ArgsOf(r, l) = E.args}
               \* among interchangeable leaves prefer one whose visible data fits
               vis(l) == Over(r.glob, BroughtBy(st.gs[r.g], l, r.entered))
               loose == r.loose
               fit == {l \in good : Restrict(vis(l), loose) = Restrict(Kv(E.seen), loose)}
               l == IF fit # {} THEN CHOOSE x \in fit : TRUE
                    ELSE IF good # {} THEN CHOOSE x \in good : TRUE
                    ELSE IF ready # {} THEN CHOOSE x \in ready : TRUE
                    ELSE IF named # {} THEN CHOOSE x \in named : TRUE ELSE <<>>
               r2 == IF l = <<>> THEN r
                     ELSE [r EXCEPT !.env = Put(@, l, E.outs),
                                    !.entered = @ \cup Prefixes(l),
                                    !.glob = Over(Kv(E.wrote), vis(l))]
           IN Goto([st EXCEPT !.run = r2])
              /\ Note({<<"T04.once", named # {}>>,
                       <<"T04.order", named # {} => ready # {}>>,
                       <<"T01.args", ready # {} => good # {}>>,
                       <<"T04.refused_before_any_task", ~r.refuse>>,
                       <<"T05.seen", good # {} => fit # {}>>})

End == /\ Is("end")
       /\ LET r == st.run
              all == DOMAIN r.env = DOMAIN r.flat.leaf
              G == st.gs[r.g]
              \* output values of the top level nodes, where known
              nodeout(j) == LET c == G.nodes[j].c
                            IN [p \in 1..NOut(c) |-> LET z == Res(G, <<j, p>>) IN
                                   IF Known(r, z) THEN Val(r, z) ELSE 0 - 1]
              exp == [q \in DOMAIN r.flat.outs |-> IF Known(r, r.flat.outs[q]) THEN Val(r, r.flat.outs[q]) ELSE 0 - 1]
              chars == Over(r.glob, Empty)
              leafonly == \A j \in DOMAIN G.nodes : G.nodes[j].c.k = "t"
              \* nested graphs without tasks still hand over what they hold
              late == {j \in DOMAIN G.nodes : <<j>> \notin r.entered}
              after == IF r.refuse THEN r.glob
                       ELSE [k \in DOMAIN r.glob |-> r.glob[k]]
              s == [st EXCEPT !.run = [on |-> FALSE],
                              !.gs[r.g].ch = IF E.ok \/ r.refuse THEN Kv(E.charafter) ELSE @,
                              !.cache[r.g] = E.cacheafter]
              labs == [q \in DOMAIN E.cacheafter |-> E.cacheafter[q][1]]
              byLab(lb) == {j \in DOMAIN G.nodes : G.nodes[j].lab = lb}
          IN Goto(s)
             /\ Note({<<"T04.refuse", r.refuse => ~E.ok /\ E.exc = "ValueError">>,
                      <<"T01.run", ~r.refuse => E.ok>>,
                      <<"T04.all", (E.ok /\ ~r.refuse) => all>>,
                      <<"T01.outs", (E.ok /\ ~r.refuse) => E.outs = exp>>,
                      <<"T04.cache_off", (~r.cache \/ r.refuse) => E.cacheafter = st.cache[r.g]>>,
                      <<"T04.cache_keys", (E.ok /\ r.cache) => SameBag(labs, r.labels)>>,
                      <<"T04.cache_vals", (E.ok /\ r.cache) =>
                          \A q \in DOMAIN E.cacheafter :
                             byLab(E.cacheafter[q][1]) # {} =>
                                E.cacheafter[q][2] = nodeout(CHOOSE j \in byLab(E.cacheafter[q][1]) : TRUE)>>,
                      <<"T04.cache_order", (E.ok /\ r.cache /\ leafonly) =>
                          [q \in DOMAIN E.cacheafter |-> E.cacheafter[q][2]] = E.callouts>>,
                      <<"T04.cache_order_nested", (E.ok /\ r.cache) =>
                          \A q1, q2 \in DOMAIN E.cacheafter : q1 < q2 =>
                             \A j1 \in byLab(E.cacheafter[q1][1]), j2 \in byLab(E.cacheafter[q2][1]) :
                                ~\E z \in DOMAIN G.nodes[j1].a : G.nodes[j1].a[z][1] = j2>>,
                      <<"T05.after", E.ok =>
                          IF late = {} /\ r.loose = {} THEN Kv(E.charafter) = r.glob
                          ELSE \A k \in DOMAIN r.glob \ r.loose : k \in DOMAIN Kv(E.charafter) /\ Kv(E.charafter)[k] = r.glob[k]>>})

(* a component handed to a generator function, observed before and after *)
Use == /\ Is("use")
       /\ UNCHANGED st
       /\ Note({<<"T03.gen_labels", E.before.labels = E.after.labels>>,
                <<"T03.gen_wires", E.before.nin = E.after.nin /\ E.before.nout = E.after.nout>>,
                <<"T03.gen_char", E.before.char = E.after.char>>,
                <<"T03.gen_result", E.before.result = E.after.result>>,
                <<"T03.gen_ran", E.ok>>})

\* characterisation of the component after the generated scheme ran, and back
TInit == KInit(S0)
TNext == New \/ Build \/ Wires \/ Copy \/ Dec \/ SetChar \/ TaskChar
         \/ Begin \/ Call \/ End \/ Use \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
