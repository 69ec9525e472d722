---------------------------- MODULE TrackerTrace ----------------------------
EXTENDS TraceKit, TrackerOps

S0(s) == [op |-> [x \in {} |-> 0], tr |-> [x \in {} |-> 0]]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Op(ps) == FromPairs(ps)

\* the whole observable state, dumped after every call
DumpT(n) == CHOOSE d \in ToSet(E.trackers) : d.n = n
DumpO(n) == CHOOSE d \in ToSet(E.operators) : d.n = n
TOK(t, d) == {
   <<"M09.strings", ToSet([k \in DOMAIN d.co |-> d.co[k][1]]) = Strs(t)>>,
   <<"M09.coefficients", Op(d.co) = t.co>>,
   <<"M09.unmeasured", ToSet(d.empty) = Unmeasured(t) /\ Len(d.empty) = Cardinality(Unmeasured(t))>>,
   <<"M09.check", ToSet(d.checked) = Strs(t) \ Unmeasured(t)>>,
   <<"M09.allcircuits", d.cs = t.cs>>,
   <<"M09.circuits", \A s \in Strs(t) : s \in {d.of[k][1] : k \in DOMAIN d.of} =>
                        Op(d.of)[s] = CircsOf(t, s)>>}
After(st2, who) ==
   /\ Goto(st2)
   /\ Note(UNION {{<<IF n = who THEN c[1] ELSE "M09.isolated", c[2]>> : c \in TOK(st2.tr[n], DumpT(n))} : n \in DOMAIN st2.tr}
           \cup {<<"M09.operators", Op(DumpO(o).co) = st2.op[o]>> : o \in DOMAIN st2.op}
           \cup {<<"M09.accepted", ~E.refused>>})

T(n) == st.tr[n]
SetTr(t) == [st EXCEPT !.tr = Put(st.tr, E.n, t)]
SetOp == /\ Is("setop")
         /\ LET old == IF E.n \in DOMAIN st.op THEN st.op[E.n] ELSE None
            IN After([st EXCEPT !.op = Put(st.op, E.n, Put(old, E.s, E.k))], "")
NewOp == /\ Is("newop") /\ After([st EXCEPT !.op = Put(st.op, E.n, None)], "")
New == /\ Is("new") /\ After(SetTr(NewT(st.op[E.o])), E.n)
New0 == /\ Is("new0") /\ After(SetTr(NewT(None)), E.n)
Copy == /\ Is("copy") /\ After(SetTr(T(E.m)), E.n)
Extend == /\ Is("extend") /\ After(SetTr(DoExtend(T(E.n), st.op[E.o])), E.n)
Checked(ok, t) == IF ok THEN t ELSE T(E.n)
WithRef(ok, st2) ==
   /\ Goto(st2)
   /\ Note(UNION {{<<IF n = E.n THEN c[1] ELSE "M09.isolated", c[2]>> : c \in TOK(st2.tr[n], DumpT(n))} : n \in DOMAIN st2.tr}
           \cup {<<"M09.operators", Op(DumpO(o).co) = st2.op[o]>> : o \in DOMAIN st2.op}
           \cup {<<"M09.refused", E.refused = ~ok>>})
Modify == /\ Is("modify") /\ LET ok == CanModify(T(E.n), E.ps)
                             IN WithRef(ok, SetTr(Checked(ok, DoModify(T(E.n), E.ps))))
Remove == /\ Is("remove") /\ After(SetTr(DoRemove(T(E.n), ToSet(E.ss))), E.n)
Add == /\ Is("add") /\ LET ok == CanAdd(T(E.n), E.infos)
                       IN WithRef(ok, SetTr(Checked(ok, DoAdd(T(E.n), E.c, E.infos))))
Clear == /\ Is("clear") /\ After(SetTr(DoClear(T(E.n))), E.n)
\* E.res: one list of counts per circuit, all of N shots; E.vals: pairs string, N * value
Query == /\ Is("expect") /\ UNCHANGED st
         /\ LET t == T(E.n) ok == Enough(t, E.res)
            IN Note({<<"M09.enough", E.refused = ~ok>>,
                     <<"M09.expected", (ok /\ ~E.refused) => ToSet([k \in DOMAIN E.vals |-> E.vals[k][1]]) = Strs(t)>>,
                     <<"M09.value", (ok /\ ~E.refused) =>
                        \A k \in DOMAIN E.vals : E.vals[k][1] \in Strs(t) =>
                           E.vals[k][2] = Expect(t, E.vals[k][1], E.res)>>})

TInit == KInit(S0)
TNext == SetOp \/ NewOp \/ New \/ New0 \/ Copy \/ Extend \/ Modify \/ Remove \/ Add \/ Clear \/ Query \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
