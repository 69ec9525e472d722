------------------------------ MODULE SpamTrace ------------------------------
(* Runs of SPAM corrected MitRes (S14, S15, S16).                            *)
EXTENDS TraceKit, Spam
\* st: the calibration in force, a matrix for every configured subset (<<>>: none)
S0(s) == <<>>
Fine == 100000
Near(a, b, t) == a - b <= t /\ b - a <= t
Mats(cals, parts) == TLCEval([x \in DOMAIN parts |-> Calibrated(cals, parts[x])])
Rows(mat) == \A p \in DOMAIN mat : Column(mat, p) > 0

MatricesAgree(got, mats) ==
   /\ Len(got) = Len(mats)
   /\ \A x \in DOMAIN mats : x \in DOMAIN got =>
        /\ Len(got[x]) = Len(mats[x])
        /\ \A m \in DOMAIN mats[x], p \in DOMAIN mats[x] :
             m \in DOMAIN got[x] => Near(got[x][m][p] * Column(mats[x], p), Fine * mats[x][m][p], Column(mats[x], p))
\* calibration circuits and matrices, as such
Calibrate == /\ Is("calibrate") /\ UNCHANGED st
   /\ LET ready == E.ok /\ \A c \in DOMAIN E.cals : Len(E.cals[c].prep) = E.n
          mats == IF ready THEN Mats(E.cals, E.parts) ELSE <<>> IN
      Note({<<"S14.calibrates", E.ok>>,
        <<"S14.prepared", E.ok => ready>>,
        <<"S14.states", E.ok => E.states>>,
        <<"S14.every", ready => \A x \in DOMAIN mats : Rows(mats[x])>>,
        <<"S14.matrices", (ready /\ \A x \in DOMAIN mats : Rows(mats[x])) => MatricesAgree(E.mats, mats)>>,
        <<"S14.columns", E.ok => \A x \in DOMAIN E.mats : \A p \in DOMAIN E.mats[x] :
              /\ Near(Column(E.mats[x], p), Fine, 20)
              /\ \A m \in DOMAIN E.mats[x] : E.mats[x][m][p] >= 0>>,
        <<"S14.ideal", (E.ok /\ E.ideal) => \A x \in DOMAIN E.mats : \A m, p \in DOMAIN E.mats[x] :
              E.mats[x][m][p] = IF m = p THEN Fine ELSE 0>>})

\* a run: what was prepared and changed before, what the device was asked, what came back
Before == CASE E.pre = "clear" -> <<>> [] E.pre = "preset" -> E.preset [] E.pre = "other" -> <<>> [] OTHER -> st
Run == /\ Is("run")
   /\ LET had == Before
          ready == \A c \in DOMAIN E.cals : Len(E.cals[c].prep) = E.n
          fresh == IF E.cals # <<>> /\ ready THEN Mats(E.cals, E.parts) ELSE <<>>
          good == fresh # <<>> /\ \A x \in DOMAIN fresh : Rows(fresh[x])
          mats == IF had # <<>> THEN had ELSE IF good THEN fresh ELSE <<>>
          ok == E.ok /\ mats # <<>> /\ Len(E.outs) = Len(E.reqs)
      IN /\ Goto(IF E.cals = <<>> THEN had ELSE IF good THEN fresh ELSE <<>>)
         /\ Note({<<"S16.ran", E.ok>>,
              <<"S16.calibrates", E.ok => (had = <<>> <=> E.cals # <<>>)>>,
              <<"S14.prepared", E.ok => ready>>,
              <<"S14.every", (E.ok /\ E.cals # <<>> /\ ready) => good>>,
              <<"S14.matrices", (E.ok /\ good /\ had = <<>>) => MatricesAgree(E.mats, fresh)>>,
              <<"S16.measured", E.ok => E.measured = [j \in DOMAIN E.reqs |-> j]>>,
              <<"S16.results", E.ok => Len(E.outs) = Len(E.reqs)>>,
              <<"S16.devices", E.ok => E.devices>>,
              <<"S16.held", E.ok => E.held = E.parts>>} \cup
            UNION {LET r == E.reqs[x] o == E.outs[x] N == Sum(r.seen)
                       chs == TLCEval(Channels(r.gs, r.d, E.parts, mats))
                       thru == TLCEval(ReadOut(o.tab, chs, r.d))
                   IN {<<"S15.bits", o.bits>>,
                       <<"S15.total", o.bits => Sum(o.tab) = N>>,
                       <<"S15.counts", o.bits => \A w \in DOMAIN o.tab : o.tab[w] >= 0>>,
                       <<"S15.undone", (o.bits /\ E.method = "Invert" /\ r.kind = "real") =>
                             \A w \in DOMAIN thru : Near(thru[w], r.seen[w], 30)>>,
                       <<"S15.single", (o.bits /\ E.method = "Invert" /\ r.d = 1 /\ Len(chs) = 1) =>
                             \* a single bit: the equations solved, within the rounding of the shares
                             LET m == chs[1].mat  t == Share(m, 1, 2)
                                 det == Share(m, 1, 1) - t  num == Unit * r.seen[1] - t * N
                                 up == IF det > 0 THEN num ELSE -num
                                 dn == IF det > 0 THEN det ELSE -det
                             IN IF up <= 0 THEN o.tab[1] <= 10 ELSE IF up >= N * dn THEN o.tab[1] + 10 >= N
                                ELSE Near(o.tab[1] * dn, up, dn + 60000)>>,
                       <<"S15.bayesian", (o.bits /\ E.method = "Bayesian" /\ r.kind = "real") =>
                             \A w \in DOMAIN thru : Near(thru[w], r.seen[w], 30 + N \div 50)>>,
                       <<"S15.ideal", (o.bits /\ E.method = "Invert" /\ \A c \in DOMAIN chs : \A m, p \in DOMAIN chs[c].mat : m # p => chs[c].mat[m][p] = 0)
                             => o.tab = r.seen>>}
                   : x \in IF ok THEN DOMAIN E.reqs ELSE {}})
TInit == KInit(S0)
TNext == Calibrate \/ Run \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
