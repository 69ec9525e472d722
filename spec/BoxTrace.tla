------------------------------ MODULE BoxTrace ------------------------------
(* Clifford subcircuits in boxes (C20) and checks around them (C21).         *)
EXTENDS TraceKit, Noise, Dag
S0(s) == 0
Quiet == UNCHANGED st

(* --- C20 ------------------------------------------------------------------ *)
Part == /\ Is("dag") /\ Quiet
   /\ LET ns == 1..E.n
          es == ToSet(E.es)
          ps == {ToSet(E.ps[j]) : j \in DOMAIN E.ps}
      IN Note({<<"C20.ran", E.ok>>,
           <<"C20.cover", E.ok => Cover(ToSet(E.col), ps)>>,
           <<"C20.convex", E.ok => \A p \in ps : Convex(ns, es, p)>>,
           <<"C20.acyclic", E.ok => Acyclic(ns, es, ps)>>,
           \* groups are as large as they can be: no two could still be merged
           <<"C20.maximal", E.ok => \A p, q \in ps : p = q \/ ~Acyclic(ns, es, (ps \ {p, q}) \cup {p \cup q})>>})
Fixed == {"X", "Y", "Z", "S", "Sdg", "V", "Vdg", "SX", "SXdg", "H", "CX", "CY", "CZ", "SWAP", "ECR", "ZZMax", "ISWAPMax", "BRIDGE"}
Box == /\ Is("box") /\ Quiet
   /\ Note({<<"C20.ran", E.ok>>,
        <<"C20.same", E.ok => SameDag(E.n, E.gs, E.open)>>,
        <<"C20.units", E.units>>,
        <<"C20.clifford", \A j \in DOMAIN E.boxes : IsClifford(E.n, E.boxes[j])>>,
        \* no gate of a Clifford type is left out
        <<"C20.boxed", \A j \in DOMAIN E.rest : E.rest[j].g \notin Fixed>>})

(* --- C21 ------------------------------------------------------------------ *)
\* Measurements, resets and conditional gates are kept apart from the gates they do not commute with by
\* standing in for them a rotation by an angle of their own (a diagonal one for measurements).
R(g, q, t) == [g |-> g, q |-> q, a |-> <<t>>, b |-> <<>>]
Plain(x) == CASE x.g = "Barrier" -> <<>>
              [] Has(x, "t") -> IF x.g = "Measure" THEN << R("Rz", x.q, x.t) >>
                                ELSE FoldLeft(LAMBDA acc, w : acc \o << R("Rz", <<w>>, x.t), R("Rx", <<w>>, x.t) >>, <<>>, x.q)
              [] OTHER -> << x >>
Formal(gs) == FoldLeft(LAMBDA acc, x : acc \o Plain(x), <<>>, gs)
Own(n, x) == \A j \in DOMAIN x.q : x.q[j] <= n
Z(m, a) == On(m, <<a>>, <<3>>)
Wd(p, m) == [p EXCEPT !.l = [j \in 1..m |-> IF j <= Len(p.l) THEN p.l[j] ELSE 0]]
Cols(f, D) == [j \in D |-> f[j]]
Checks == /\ Is("checks") /\ Quiet
   /\ LET n == E.n
          k == E.k
          m == n + k
          final == [a \in (n+1)..m |-> SelectSeq(E.out, LAMBDA x : x.g = "Measure" /\ \E j \in DOMAIN x.q : x.q[j] = a)]
          lastOf == [a \in (n+1)..m |-> LET w == WireOf(E.out, a) IN w # <<>> /\ w[Len(w)].g = "Measure"]
          body == SelectSeq(E.out, LAMBDA x : ~(x.g = "Measure" /\ x.q[1] > n))
          newb == {E.newbits[j] : j \in DOMAIN E.newbits}
      IN Note({<<"C21.ran", E.ok>>,
           <<"C21.count", E.ok => k = E.wanted /\ Len(E.newbits) = k /\ Cardinality(newb) = k>>,
           <<"C21.measured", E.ok => \A a \in (n+1)..m : Len(final[a]) = 1 /\ lastOf[a]>>,
           <<"C21.measured", E.ok => {final[a][1].b[1] : a \in {x \in (n+1)..m : final[x] # <<>>}} = newb>>,
           <<"C21.reported", E.ok => ToSet(E.post) = newb>>,
           <<"C21.units", E.units>>,
           \* the whole circuit acts as before on its own qubits and as the identity on each ancilla
           <<"C21.unchanged", E.ok => SameNF(NF(m, Formal(body)), NF(m, Formal(E.gs)))>>,
           <<"C21.kept", E.ok => SameDag(n, E.kept0, SelectSeq(E.kept, LAMBDA x : Own(n, x)))>>})
\* an error just before a box flips the ancillas of exactly the checks of that box that it anticommutes with
Detect == /\ Is("detect") /\ Quiet
   /\ LET n == E.n
          m == n + E.k
          lo1 == E.lo1
          gap(gs, a, b) == Formal(SubSeq(gs, a, b))
          errs == {<<b, j, l>> : b \in DOMAIN lo1, j \in 1..n, l \in {1, 3}}
          live == {e \in errs : e[2] \in ToSet(E.bq[e[1]])}
          want(c) == {e \in live : e[1] = c.b /\ ~Commute(On(n, <<e[2]>>, <<e[3]>>), c.p)}
          got(a) == {e \in live : ~Commute(Push(m, gap(E.out, lo1[e[1]], Len(E.out)), On(m, <<e[2]>>, <<e[3]>>)), Z(m, a))}
          ws == [j \in DOMAIN E.ps |-> TLCEval(want(E.ps[j]))]
          xs == [j \in 1..E.k |-> TLCEval(got(n + j))]
      IN Note({<<"C21.detects", SameBag(ws, xs)>>,
           \* checks chosen for a noise model leave as few of its errors unseen as any such choice could
           <<"C21.optimal", Has(E, "opt") => \A j \in DOMAIN E.opt :
                LET o == E.opt[j]
                    miss(cs) == FoldLeft(LAMBDA acc, x : IF \A c \in cs : Commute([ph |-> 0, l |-> x[1]], [ph |-> 0, l |-> c]) THEN acc + x[2] ELSE acc, 0, o.errs)
                    strs == AllL(o.w) \ {IdL(o.w)}
                IN \A cs \in (IF Len(o.cs) = 1 THEN {{c} : c \in strs} ELSE {{c, d} : c, d \in strs}) : miss(ToSet(o.cs)) <= miss(cs)>>})

TInit == KInit(S0)
TNext == Part \/ Box \/ Checks \/ Detect \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
