------------------------------ MODULE CircTrace ------------------------------
(* Circuits derived from a circuit: random frames (F13), folding (Z25),      *)
(* near-Clifford training circuits (R22), Clifford frames (E27).             *)
EXTENDS TraceKit, Circ, Results
S0(s) == 0
Quiet == UNCHANGED st

(* --- F13: frame randomisation ---------------------------------------------- *)
Ceil(a, b) == (a + b - 1) \div b
\* E.circs: requests [gs, shots]; E.outs: [gs, shots, units], E.m wires, E.samples
Frame == /\ Is("frame") /\ Quiet
   /\ LET s == E.samples
          of(j) == SubSeq(E.outs, (j - 1) * s + 1, j * s)
      IN Note({<<"F13.ran", E.ok>>,
           <<"F13.count", E.ok => Len(E.outs) = s * Len(E.circs)>>,
           <<"F13.units", \A k \in DOMAIN E.outs : E.outs[k].units>>,
           <<"F13.shots", (E.ok /\ Len(E.outs) = s * Len(E.circs)) => \A j \in DOMAIN E.circs : \A k \in DOMAIN of(j) :
                             of(j)[k].shots = Ceil(E.circs[j].shots, s)>>,
           <<"F13.same", (E.ok /\ Len(E.outs) = s * Len(E.circs)) => \A j \in DOMAIN E.circs :
                LET f == TLCEval(NF(E.m, Formal(E.circs[j].gs)))
                IN \A k \in DOMAIN of(j) : SameNF(f, TLCEval(NF(E.m, Formal(of(j)[k].gs))))>>})
\* E.ins: results of the randomised circuits in order, E.outs: merged results, E.bits: bits of each original
Merge == /\ Is("merge") /\ Quiet
   /\ Note({<<"F13.ran", E.ok>>,
        <<"F13.onepereq", E.ok => Len(E.outs) = Len(E.bits)>>,
        <<"F13.bits", E.ok => \A j \in DOMAIN E.bits : j \in DOMAIN E.outs => BitSet(E.outs[j]) = ToSet(E.bits[j])>>,
        <<"F13.merged", E.ok => \A j \in DOMAIN E.bits : j \in DOMAIN E.outs =>
             SameBagF(Bag(E.outs[j]), BagSum([k \in 1..E.samples |-> Bag(E.ins[(j - 1) * E.samples + k])]))>>})

(* --- Z25: folding ------------------------------------------------------------ *)
\* scaling E.num / E.den of E.gs by E.method; E.outs: circuits
Extra(m) == 2 * ((m * (E.num - E.den)) \div (2 * E.den))     \* gates added when m are to grow by the scaling
Exact(m) == Extra(m) * E.den = m * (E.num - E.den)
Whole == E.num % E.den = 0
K == E.num \div E.den
Odd == Whole /\ K % 2 = 1
N0 == NOps(E.gs) - E.relabel
M0 == Len(TwoQ(E.gs)) - E.relabel   \* a relabelling of wires is written as SWAPs but is no gate
Possible == CASE E.method = "circuit" -> E.num >= E.den /\ Odd
              [] E.method = "two_qubit_gate" -> E.num >= E.den /\ M0 > 0 /\ (E.approx \/ Exact(M0))
              [] E.method = "gate" -> E.num >= E.den /\ (E.approx \/ Exact(N0))
              [] OTHER -> E.num >= E.den /\ Whole
WantOps == CASE E.method = "circuit" -> N0 * K
             [] E.method = "two_qubit_gate" -> N0 + Extra(M0)
             [] E.method = "gate" -> N0 + Extra(N0)
             [] E.method = "odd_gate" -> N0 + 2 * (K - 1) * ((N0 + 1) \div 2)
NotPauli(gs) == SelectSeq(gs, LAMBDA x : IsOp(x) /\ x.g \notin {"X", "Y", "Z"})
Fold == /\ Is("fold") /\ Quiet
   /\ IF ~Possible THEN Note({<<"Z25.refused", ~E.ok>>})
      ELSE Note({<<"Z25.ran", E.ok>>,
           <<"Z25.circuits", E.ok => Len(E.outs) = E.samples>>,
           <<"Z25.units", E.ok => E.units>>,
           <<"Z25.input", E.unmodified>>,
           <<"Z25.same", (E.ok /\ E.method # "noise_aware") => \A k \in DOMAIN E.outs : SameCirc(E.m, E.gs, E.outs[k])>>,
           <<"Z25.count", (E.ok /\ E.method # "noise_aware") => \A k \in DOMAIN E.outs : NOps(E.outs[k]) - E.relabel = WantOps>>,
           <<"Z25.two", (E.ok /\ E.method = "two_qubit_gate") => \A k \in DOMAIN E.outs : Len(TwoQ(E.outs[k])) - E.relabel = M0 + Extra(M0)>>,
           \* copies are still there when redundancies are removed
           <<"Z25.apart", (E.ok /\ E.method # "noise_aware") => E.apart>>,
           \* the noise aware method adds Pauli gates and nothing else, as many as the scaled noise says
           <<"Z25.kept", (E.ok /\ E.method = "noise_aware") => \A k \in DOMAIN E.outs : SameWires(E.m, NotPauli(E.outs[k]), NotPauli(E.gs))>>,
           <<"Z25.noise", (E.ok /\ E.method = "noise_aware") => \A k \in DOMAIN E.outs : NOps(E.outs[k]) - E.relabel = N0 + E.errors>>})

(* --- R22: near-Clifford training circuits -------------------------------------- *)
\* E.gs: the circuit in CX, H, Rz; E.outs: training circuits; E.non, E.pairs, E.total
Lone(gs, w) == On1(Ops(gs), w)
Blank(x) == IF x.g = "Rz" THEN [g |-> "Rz", q |-> x.q] ELSE x
SameShape(m, gs, hs) == SameWires(m, [k \in DOMAIN Ops(gs) |-> Blank(Ops(gs)[k])], [k \in DOMAIN Ops(hs) |-> Blank(Ops(hs)[k])])
NonCliff(gs) == {<<w, k>> \in UNION {{<<w, k>> : k \in DOMAIN Lone(gs, w)} : w \in 1..E.n} :
                   Lone(gs, w)[k].g = "Rz" /\ Lone(gs, w)[k].a[1] % Qt # 0}
Least(a, b) == IF a < b THEN a ELSE b
Train == /\ Is("train") /\ Quiet
   /\ IF E.pairs > E.non THEN Note({<<"R22.refused", ~E.ok>>})
      ELSE Note({<<"R22.ran", E.ok>>,
           <<"R22.total", E.ok => Len(E.outs) = E.total>>,
           <<"R22.units", E.units>>,
           <<"R22.wires", E.wires>>,
           <<"R22.shape", E.ok => \A j \in DOMAIN E.outs : SameShape(E.m, E.gs, E.outs[j])>>,
           <<"R22.angles", E.ok => LET orig == TLCEval([w \in 1..E.n |-> Lone(E.gs, w)])
                                      nc == TLCEval(NonCliff(E.gs))
                IN \A j \in DOMAIN E.outs : SameShape(E.m, E.gs, E.outs[j]) =>
                     LET out == TLCEval([w \in 1..E.n |-> Lone(E.outs[j], w)])
                         left == TLCEval(NonCliff(E.outs[j]))
                         same(x) == (out[x[1]][x[2]].a[1] - orig[x[1]][x[2]].a[1]) % (4 * Qt) = 0
                     IN \* kept rotations have their own angle, and there are as many as configured
                        /\ left \subseteq nc /\ \A x \in left : same(x)
                        /\ Cardinality(left) = (IF nc = {} THEN 0 ELSE Least(E.non, Cardinality(nc) - 1))
                        \* what was Clifford already stays as it is
                        /\ Cardinality(nc) # 1 => \A w \in 1..E.n : \A k \in DOMAIN out[w] :
                               (out[w][k].g = "Rz" /\ <<w, k>> \notin nc) => same(<<w, k>>)>>})

(* --- E27: frames and computing gates --------------------------------------------- *)
\* E.gs0 the user's circuit, E.gs the labelled and wrapped one (og: labels)
Has2(x) == Len(x.q) = 2
IsFrame(x) == x.g = "CX"
Frames(gs) == {k \in DOMAIN gs : IsFrame(gs[k])}
PName == << "X", "Y", "Z" >>
PGate(l, q) == IF l = 0 THEN <<>> ELSE << [g |-> PName[l], q |-> << q >>, a |-> <<>>] >>
Strip(x) == [g |-> x.g, q |-> x.q, a |-> x.a]
Body(gs) == [k \in DOMAIN Ops(gs) |-> Strip(Ops(gs)[k])]
\* c = <<k, l1, l2>>: Paulis on both sides of frame k; <<0, 0, 0>>: none
Subst(gs, c) == IF c[1] = 0 THEN gs ELSE
   LET p == PGate(c[2], gs[c[1]].q[1]) \o PGate(c[3], gs[c[1]].q[2])
   IN SubSeq(gs, 1, c[1] - 1) \o p \o << gs[c[1]] >> \o p \o SubSeq(gs, c[1] + 1, Len(gs))
Cands(gs) == {<<0, 0, 0>>} \cup {c \in {<<k, a, b>> : k \in Frames(gs), a \in 0..3, b \in 0..3} : c[2] + c[3] > 0}
Ordered(m, gs) == [w \in 1..m |-> On1(gs, w)]
\* which substitution of gs each of the circuits outs is (<<-1>> if none)
Which(m, gs, outs) ==
   LET cs == Cands(gs)
       key == TLCEval([c \in cs |-> Ordered(m, Subst(gs, c))])
   IN [j \in DOMAIN outs |-> LET o == TLCEval(Ordered(m, Body(outs[j])))
                              IN IF \E c \in cs : key[c] = o THEN CHOOSE c \in cs : key[c] = o ELSE << -1 >>]
\* frames counted on their first wire, to compare circuits with the same frames
Pos(gs, c) == IF c[1] < 1 THEN c ELSE
   <<[w \in {gs[c[1]].q[1]} |-> Cardinality({k \in Frames(gs) : k <= c[1] /\ w \in ToSet(gs[k].q)})], c[2], c[3]>>
Complete(gs, ws) == Len(ws) = Cardinality(Cands(gs)) /\ ToSet(ws) = Cands(gs)
CXs(gs) == LET x == SelectSeq(Body(gs), IsFrame) IN x
Framed == /\ Is("framed") /\ Quiet
   /\ IF ~E.valid THEN Note({<<"E27.refused", ~E.ok>>})
      ELSE Note({<<"E27.ran", E.ok>>,
           <<"E27.units", E.units>>,
           <<"E27.same", E.ok => SameOp(E.n, Body(E.gs0), Body(E.gs))>>,
           <<"E27.basis", E.ok => \A k \in DOMAIN Ops(E.gs) : Ops(E.gs)[k].g \in {"TK1", "CX", "SWAP"}>>,
           <<"E27.trackers", E.kept>>,
           \* training circuits: the same frames with Clifford gates between them, told apart from zero
           <<"E27.training", E.ok => \A t \in DOMAIN E.train :
                LET tr == E.train[t]
                IN /\ Ordered(E.n, CXs(tr.gs)) = Ordered(E.n, CXs(E.gs))
                   /\ IsClifford(E.n, Body(tr.gs))
                   /\ \A j \in 1..E.n : Pull(E.n, Body(tr.gs), [ph |-> 0, l |-> tr.p]).l[j] \in {0, 3}>>,
           <<"E27.trainunits", E.ok => \A t \in DOMAIN E.train : E.train[t].units>>,
           <<"E27.noisy", E.ok => LET gs == Body(E.gs)
                                     ws == TLCEval(Which(E.n, gs, E.noisy))
                                     pos == [j \in DOMAIN ws |-> Pos(gs, ws[j])]
                IN /\ Complete(gs, ws)
                   /\ \A t \in DOMAIN E.train :
                        LET ts == Body(E.train[t].gs)
                            vs == TLCEval(Which(E.n, ts, E.train[t].noisy))
                        IN Complete(ts, vs) /\ \A j \in DOMAIN vs : Pos(ts, vs[j]) = pos[j]>>})
\* numbering of the circuits: E.ideal: <<experiment, string, circuit>>, E.noisy: <<experiment, error>>;
\* E.strs: how many strings each experiment has, E.errs: how many errors each circuit
Numbers == /\ Is("numbers") /\ Quiet
   /\ Note({<<"E27.ideal", ToSet(E.ideal) = UNION {{<<x - 1, s - 1, t - 1>> : s \in 1..E.strs[x], t \in 1..E.k} : x \in DOMAIN E.strs}
                            /\ Cardinality(ToSet(E.ideal)) = Len(E.ideal)>>,
        <<"E27.errors", ToSet(E.noisy) = UNION {{<<x - 1, r - 1>> : r \in 1..E.errs[x]} : x \in DOMAIN E.errs}
                            /\ Cardinality(ToSet(E.noisy)) = Len(E.noisy)>>})

TInit == KInit(S0)
TNext == Frame \/ Merge \/ Fold \/ Train \/ Framed \/ Numbers \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
