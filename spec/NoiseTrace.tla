----------------------------- MODULE NoiseTrace -----------------------------
(* Recorded histories of QermitPauli objects (N17), error distributions      *)
(* (N18) and errors in circuits (N19).                                       *)
EXTENDS TraceKit, Noise
S0(s) == [p |-> 0, d |-> <<>>, l |-> <<>>]

(* --- N17 ------------------------------------------------------------------ *)
Supported == {"X", "Y", "Z", "S", "Sdg", "V", "Vdg", "SX", "SXdg", "H", "CX", "CY", "CZ", "ECR", "SWAP", "noop", "Barrier",
              "BRIDGE", "ZZMax", "ISWAPMax", "Rz", "Rx", "PhasedX", "ZZPhase"}
Must(n, gs) == IsClifford(n, gs) /\ \A k \in DOMAIN gs : gs[k].g \in Supported
NotClifford(n, gs) == NF(n, gs).rs # <<>>
\* exact operator of a sequence of X, Y, Z gates with a global phase i^k
Letter(g) == CASE g = "X" -> 1 [] g = "Y" -> 2 [] g = "Z" -> 3 [] OTHER -> 0
Product(n, gs, k) == FoldLeft(LAMBDA acc, x : PMul(On(n, x.q, <<Letter(x.g)>>), acc), Times(PId(n), k), gs)
PauliOp == /\ Is("pauli")
   /\ LET n == E.n
          p == IF E.k = "new" THEN E.p ELSE st.p
          refusable == E.k \in {"gate", "circuit"} /\ ~Must(n, E.gs)
          q == CASE E.k = "new" -> E.p
                 [] E.k \in {"gate", "circuit"} -> IF E.ok THEN Push(n, E.gs, p) ELSE p
                 [] E.k = "pre" -> PMul(p, On(n, E.q, E.l))
                 [] E.k = "post" -> PMul(On(n, E.q, E.l), p)
                 [] E.k = "dagger" -> PInv(p)
                 [] E.k = "reduce" -> DropP(p, ToSet(E.q))
                 [] OTHER -> p
          nocl == E.k \in {"gate", "circuit"} /\ NotClifford(n, E.gs)
      IN /\ Goto([st EXCEPT !.p = IF nocl THEN E.obs ELSE q])
         /\ Note({<<"N17.accepted", E.ok \/ refusable>>,
              <<"N17.refused", nocl => ~E.ok>>,
              <<"N17.operator", (E.k = "circuit" /\ ~E.ok) \/ nocl \/ E.obs = q>>,
              <<"N17.unchanged", E.same>>,
              <<"N17.measurable", E.k = "measurable" => (E.v <=> Flips(p, ToSet(E.q)))>>,
              <<"N17.equal", E.k = "eq" => (E.v <=> (E.p = p)) /\ (E.v => E.h)>>,
              <<"N17.circuit", E.k = "gates" => \A j \in DOMAIN E.gs : E.gs[j].g \in {"X", "Y", "Z", "noop"}>>,
              <<"N17.circuit", E.k = "gates" => Product(n, E.gs, E.phase) = p>>,
              <<"N17.control", E.k = "control" => SameNF(NF(n + 1, E.gs), CtrlNF(n, p))>>})

(* --- N18 ------------------------------------------------------------------ *)
Dist(x) == [n |-> x.n, D |-> x.D, r |-> FromPairs(x.r)]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoErr == [l \in {} |-> 0]
Rare(cnt, N, w, T) ==   \* cnt out of N at rate w/T is out of the question
   LET dev == IF cnt * T >= N * w THEN cnt * T - N * w ELSE N * w - cnt * T
       sl == IF dev > 2 * T THEN dev - 2 * T ELSE 0
   IN IF w = 0 THEN cnt > 0 ELSE IF w = T THEN cnt < N ELSE sl * sl > 49 * N * w * (T - w)
DistOp == /\ Is("dist")
   /\ LET a == E.args
          legal == IF E.k = "new" THEN Valid(Dist(E.def)) ELSE TRUE
          want == CASE E.k \in {"new", "ptm"} -> Dist(E.def)
                    [] E.k = "mix" -> Mix([j \in DOMAIN a |-> st.d[a[j]]])
                    [] E.k = "scale" -> Scale(st.d[a[1]], E.by)
                    [] E.k \in {"copy", "order", "show", "sample"} -> st.d[a[1]]
          got == Dist(E.obs)
      IN IF E.k = "new" /\ ~legal THEN UNCHANGED st /\ Note({<<"N18.refused", ~E.ok>>})
         ELSE IF ~E.ok THEN UNCHANGED st /\ Note({<<"N18.accepted", FALSE>>})
         ELSE /\ Goto([st EXCEPT !.d = Put(@, E.out, got)])
              /\ Note({<<"N18.rates", SameRates(got, want)>>,
                   <<"N18.conserved", E.free = got.D - Total(got) /\ E.free >= 0 /\ \A l \in DOMAIN got.r : got.r[l] >= 0>>,
                   <<"N18.roundtrip", E.k = "copy" => E.eq>>,
                   <<"N18.frame", E.frame>>,
                   <<"N18.equal", \A j \in DOMAIN E.eqs : LET e == st.d[E.eqs[j].name] IN
                         (DOMAIN e.r = Supp(e) /\ DOMAIN got.r = Supp(got) /\ e.D * got.D < 8000) => (E.eqs[j].v <=> SameRates(got, e))>>,
                   <<"N18.order", E.k = "order" => \A j \in 1..(Len(E.obs.r) - 1) :
                         IF E.rev THEN E.obs.r[j][2] >= E.obs.r[j+1][2] ELSE E.obs.r[j][2] <= E.obs.r[j+1][2]>>,
                   <<"N18.support", E.k = "sample" => \A c \in ToSet(E.counts) : c[1] \in Supp(got) \/ (c[1] = <<>> /\ E.free > 0)>>,
                   <<"N18.frequency", E.k = "sample" => \A l \in Supp(got) :
                         ~Rare(FoldLeft(LAMBDA acc, c : IF c[1] = l THEN acc + c[2] ELSE acc, 0, E.counts), E.N, got.r[l], got.D)>>,
                   <<"N18.transfer", Has(E, "back") => SameRates(Dist(E.back), Trim(got.n, got.D, Full(got)))>>,
                   <<"N18.transfer", Has(E, "ptm") => /\ {x[1] : x \in ToSet(E.ptm)} = AllL(got.n)
                                                      /\ \A x \in ToSet(E.ptm) : x[2] = Transfer(got, x[1])>>})
Frac == /\ Is("frac") /\ UNCHANGED st    \* scale(f) then scale(2) against scale(2 f), in millionths
   /\ Note({<<"N18.compose", E.ok /\ {x[1] : x \in ToSet(E.one)} = {x[1] : x \in ToSet(E.two)}
                /\ \A x \in ToSet(E.one), y \in ToSet(E.two) : x[1] = y[1] => x[2] - y[2] \in -200..200>>,
            <<"N18.identity_scale", E.ok => \A x \in ToSet(E.unit) : \E y \in ToSet(E.r) : x[1] = y[1] /\ x[2] - y[2] \in -20..20>>})
Log(x) == [total |-> x.total, c |-> FromPairs(x.c)]
LogOp == /\ Is("logical")
   /\ LET want == IF E.k = "new" THEN Log(E.def) ELSE PostSel(st.l[E.args[1]], ToSet(E.qs))
          got == Log(E.obs)
      IN /\ Goto([st EXCEPT !.l = Put(@, E.out, want)])
         /\ Note({<<"N18.logical", got = want /\ Cardinality(DOMAIN got.c) = Len(E.obs.c)>>,
                  <<"N18.probability", LET f == ByString(want) IN
                       /\ {x[1] : x \in ToSet(E.rates)} = DOMAIN f /\ \A x \in ToSet(E.rates) : x[2] = f[x[1]]>>,
                  <<"N18.frame", E.frame>>})

(* --- N19 ------------------------------------------------------------------ *)
Map(m) == [g \in {m[j][1] : j \in DOMAIN m} |-> Dist(m[CHOOSE j \in DOMAIN m : m[j][1] = g][2])]
Prop == /\ Is("prop") /\ UNCHANGED st
   /\ LET m == Map(E.m)
          as == Assigns(E.gs, m, Len(E.gs))
          img(a) == IF E.fwd THEN Forward(E.n, E.gs, a) ELSE Backward(E.n, E.gs, a)
          im == TLCEval([a \in as |-> img(a)])
          poss == {im[a] : a \in as}
      IN IF E.k = "one" THEN Note({<<"N19.propagated", \A j \in DOMAIN E.outs : E.outs[j] \in poss>>})
         ELSE LET T == Parts(E.gs, m)
                  w(p) == FoldSet(LAMBDA a, acc : IF im[a] = p THEN acc + Weight(E.gs, m, a) ELSE acc, 0, as)
                  cnt == FromPairs(E.counts)
                  seen == SumSeq([j \in DOMAIN E.counts |-> E.counts[j][2]])
                  idw == FoldSet(LAMBDA a, acc : IF im[a].l = IdL(E.n) THEN acc + Weight(E.gs, m, a) ELSE acc, 0, as)
              IN Note({<<"N19.propagated", DOMAIN cnt \subseteq poss>>,
                   <<"N19.total", E.total = E.N /\ seen <= E.N /\ Cardinality(DOMAIN cnt) = Len(E.counts)>>,
                   <<"N19.identity", \A p \in DOMAIN cnt : p.l # IdL(E.n)>>,
                   <<"N19.frequency", ~Rare(E.N - seen, E.N, idw, T) /\
                        \A p \in {x \in poss : x.l # IdL(E.n)} : ~Rare(IF p \in DOMAIN cnt THEN cnt[p] ELSE 0, E.N, w(p), T)>>})
Clean(gs) == SelectSeq(gs, LAMBDA x : x.g # "noop" \/ x.b # <<>>)
Transpile == /\ Is("transpile") /\ UNCHANGED st
   /\ LET m == Map(E.m)
          as == Assigns(E.gs, m, Len(E.gs))
          T == Parts(E.gs, m)
          match == [j \in DOMAIN E.outs |-> TLCEval({a \in as : SameDag(E.n, Clean(WithErrors(E.gs, a)), Clean(E.outs[j][1]))})]
          N == SumSeq([j \in DOMAIN E.outs |-> E.outs[j][2]])
          wt(S) == FoldSet(LAMBDA a, acc : acc + Weight(E.gs, m, a), 0, S)
      IN Note({<<"N19.ran", E.ok>>, <<"N19.units", E.units>>,
           <<"N19.inserted", \A j \in DOMAIN E.outs : match[j] # {}>>,
           <<"N19.rate", \A j \in DOMAIN E.outs : match[j] # {} => ~Rare(E.outs[j][2], N, wt(match[j]), T)>>,
           <<"N19.rate", (\A j \in DOMAIN E.outs : match[j] # {}) => \A a \in as \ UNION {match[j] : j \in DOMAIN E.outs} : ~Rare(0, N, Weight(E.gs, m, a), T)>>})

TInit == KInit(S0)
TNext == PauliOp \/ DistOp \/ Frac \/ LogOp \/ Prop \/ Transpile \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
