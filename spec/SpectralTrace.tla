---------------------------- MODULE SpectralTrace ----------------------------
(* Spectral filtering (P29).                                                 *)
EXTENDS TraceKit, Spectral, Noise
S0(s) == 0
Quiet == UNCHANGED st
Fine == 1000
Abs(x) == IF x < 0 THEN -x ELSE x
Value(n, gs, l) == LET u == TLCEval(Pull(n, gs, [ph |-> 0, l |-> l]))
                   IN IF \E q \in 1..n : u.l[q] \in {1, 2} THEN 0 ELSE IF u.ph = 0 THEN 1 ELSE -1
All(n, k) == {Coord(n, k, x) : x \in 0..(Pow(n, k) - 1)}
Spectra == /\ Is("spectral") /\ Quiet
   /\ Note({<<"P29.ran", E.ok>>,
        <<"P29.results", E.ok => /\ Len(E.outs) = Len(E.exps)
                                 /\ \A x \in DOMAIN E.exps : x \in DOMAIN E.outs => Len(E.outs[x]) = Len(E.exps[x].vals)>>,
        <<"P29.requests", E.ok => E.kept>>,
        <<"P29.points", (E.ok /\ ~E.real) => \A x \in DOMAIN E.exps : LET e == E.exps[x] IN
              ToSet(e.ran) = All(E.n, e.k) /\ Len(e.ran) = Pow(E.n, e.k) /\ e.same>>,
        <<"P29.ideal", (E.ok /\ E.real) => \A x \in DOMAIN E.exps : LET e == E.exps[x] IN
              \A s \in DOMAIN e.ls : (x \in DOMAIN E.outs /\ s \in DOMAIN E.outs[x]) =>
                 Abs(E.outs[x][s] - Fine * e.c[s] * Value(e.n, e.gs, e.ls[s])) <= 5>>,
        <<"P29.value", (E.ok /\ ~E.real) => \A x \in DOMAIN E.exps : LET e == E.exps[x] N == Pow(E.n, e.k) p == Index(E.n, e.k, e.at) IN
              \A s \in DOMAIN e.vals : (x \in DOMAIN E.outs /\ s \in DOMAIN E.outs[x]) =>
                 IF E.tol = 0 THEN Abs(E.outs[x][s] - Fine * e.vals[s][p + 1]) <= 2
                 ELSE LET F == TLCEval(Filter(TLCEval(Fourier(E.n, e.k, e.vals[s])), E.tol))
                      IN Abs(E.outs[x][s] * N - Fine * Restore(E.n, e.k, F, p)[1]) <= 2 * N>>})
Stages == /\ Is("stages") /\ Quiet
   /\ LET size(x) == FoldLeft(LAMBDA acc, d : acc * d, 1, E.shapes[x])
          before(x) == FoldLeft(LAMBDA acc, j : acc + size(j), 0, [j \in 1..(x - 1) |-> j])
      IN Note({<<"P29.stages", E.ok>>,
        <<"P29.flatten", E.ok => /\ E.flat = [j \in DOMAIN E.flat |-> j - 1]
                                 /\ E.lengths = [x \in DOMAIN E.shapes |-> size(x)]
                                 /\ Len(E.flat) = before(Len(E.shapes) + 1)>>,
        <<"P29.reshape", E.ok => E.back = E.shapes>>,
        <<"P29.table", E.ok => /\ Len(E.table) = Len(E.shapes)
             /\ \A x \in DOMAIN E.table :
                  /\ {E.table[x][s][1] : s \in DOMAIN E.table[x]} = ToSet(E.strs[x])
                  /\ \A s \in DOMAIN E.table[x] :
                       E.table[x][s][2] = [j \in 1..size(x) |-> 100 * (before(x) + j - 1) + E.table[x][s][1]]>>,
        <<"P29.lossless", E.ok => E.ident>>,
        <<"P29.copies", E.ok => LET a == E.copies[1] b == E.copies[2] IN
             SubSeq(E.copies, 3, Len(E.copies)) = [j \in 1..(a * b) |-> (j - 1) % a]>>,
        <<"P29.filter", E.ok => \A j \in DOMAIN E.filters : LET f == E.filters[j] IN
             <<f[3], f[4]>> = IF Keep(<<f[1], f[2]>>, E.tol) THEN <<f[1], f[2]>> ELSE <<0, 0>> >>,
        <<"P29.axes", E.ok => E.axes>>,
        <<"P29.coordinates", E.ok => \A j \in DOMAIN E.points : E.points[j][1] = E.points[j][2]>>,
        <<"P29.extracted", E.ok => E.picked = E.wanted>>})
TInit == KInit(S0)
TNext == Spectra \/ Stages \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
