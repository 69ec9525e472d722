------------------------------ MODULE TrackerMC -----------------------------
(* Every history of calls on a few trackers and operators.                   *)
EXTENDS TrackerOps, TLC, Json
CONSTANTS Names,    \* trackers
          ONames,   \* operators the user holds
          Strings, MaxOps, MaxCs, Gen
VARIABLES tr, op, ops
vars == <<tr, op, ops>>
View == <<tr, op, Len(ops)>>

Coeffs == {1, 2, 3}
Ops0 == [o \in ONames |-> None]
Init == tr = [x \in {} |-> 0] /\ op = Ops0 /\ ops = <<>>

Log(c) == ops' = Append(ops, c)
SetOp(o, s, k) == op' = [op EXCEPT ![o] = [x \in DOMAIN @ \cup {s} |-> IF x = s THEN k ELSE @[x]]]
                  /\ UNCHANGED tr /\ Log(<<"setop", o, s, k>>)
Put(n, t) == tr' = [x \in DOMAIN tr \cup {n} |-> IF x = n THEN t ELSE tr[x]]
New(n, o) == Put(n, NewT(op[o])) /\ UNCHANGED op /\ Log(<<"new", n, o>>)
New0(n) == Put(n, NewT(None)) /\ UNCHANGED op /\ Log(<<"new0", n>>)
Copy(n, m) == m \in DOMAIN tr /\ n # m /\ Put(n, tr[m]) /\ UNCHANGED op /\ Log(<<"copy", n, m>>)
Extend(n, o) == n \in DOMAIN tr /\ Put(n, DoExtend(tr[n], op[o])) /\ UNCHANGED op /\ Log(<<"extend", n, o>>)
Modify(n, ps) == n \in DOMAIN tr /\ Put(n, IF CanModify(tr[n], ps) THEN DoModify(tr[n], ps) ELSE tr[n])
                 /\ UNCHANGED op /\ Log(<<"modify", n, ps>>)
Remove(n, s) == n \in DOMAIN tr /\ Put(n, DoRemove(tr[n], {s})) /\ UNCHANGED op /\ Log(<<"remove", n, <<s>>>>)
Add(n, infos) == n \in DOMAIN tr /\ Len(tr[n].cs) < MaxCs
                 /\ Put(n, IF CanAdd(tr[n], infos) THEN DoAdd(tr[n], Len(ops), infos) ELSE tr[n])
                 /\ UNCHANGED op /\ Log(<<"add", n, Len(ops), infos>>)
Clear(n) == n \in DOMAIN tr /\ Put(n, DoClear(tr[n])) /\ UNCHANGED op /\ Log(<<"clear", n>>)

\* when generating, one random choice instead of all of them
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S

Infos == {<< <<s, <<0>>, FALSE>> >> : s \in Strings}
   \cup {<< <<s, <<0, 1>>, TRUE>>, <<u, <<1>>, FALSE>> >> : s, u \in Strings}
Next == /\ Len(ops) < MaxOps
        /\ \/ \E o \in Pick(ONames), s \in Pick(Strings), k \in Pick(Coeffs) : SetOp(o, s, k)
           \/ \E n \in Pick(Names), o \in Pick(ONames) : New(n, o)
           \/ \E n \in Pick(Names), o \in Pick(ONames) : Extend(n, o)
           \/ \E n \in Pick(Names) : New0(n)
           \/ \E n \in Pick(Names) : Clear(n)
           \/ \E n \in Pick(Names), m \in Pick(Names) : Copy(n, m)
           \/ \E n \in Pick(Names), s \in Pick(Strings) : Remove(n, s)
           \/ \E n \in Pick(Names), s \in Pick(Strings), u \in Pick(Strings), k \in Pick(Coeffs) : Modify(n, <<<<s, k>>, <<u, 1>>>>)
           \/ \E n \in Pick(Names), infos \in Pick(Infos) : Add(n, infos)
           \/ \E n \in Pick(Names), infos \in Pick(Infos) : Gen /\ Add(n, infos)
           \/ \E o \in Pick(ONames), s \in Pick(Strings), k \in Pick(Coeffs) : Gen /\ SetOp(o, s, k)
Spec == Init /\ [][Next]_vars

AllOK == \A n \in DOMAIN tr : Consistent(tr[n])
\* a call on one tracker changes no other tracker and no operator
Frame == [][\A n \in DOMAIN tr : LET c == ops'[Len(ops')] IN
              (c[1] = "setop" \/ c[2] # n) => tr'[n] = tr[n]]_vars
OpFrame == [][\A o \in ONames : LET c == ops'[Len(ops')] IN c[1] # "setop" => op'[o] = op[o]]_vars
MeasuredOnce == \A n \in DOMAIN tr : \A s \in Strs(tr[n]) :
                   (s \in Unmeasured(tr[n])) <=> (CircsOf(tr[n], s) = <<>>)
Emit == Gen /\ Len(ops) = MaxOps => PrintT("GEN " \o ToJson(ops))
=============================================================================
