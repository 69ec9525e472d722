----------------------------- MODULE ShotsTrace -----------------------------
(* Traces of everything that submits shots and hands results back: shot      *)
(* splitting, the transpiler backend, post-selection, leakage detection and  *)
(* frame randomisation accounting.                                           *)
EXTENDS TraceKit, Results

S0(s) == [tr |-> <<>>]

(* --- shot splitting: one event per run --------------------------------- *)
\* E.req: [c, n]; E.max; E.jobs: [c, n, res]; E.outs: results in order
RECURSIVE Cum(_, _)
Cum(jobs, k) == IF k = 0 THEN 0 ELSE jobs[k].n + Cum(jobs, k - 1)
RECURSIVE CumR(_, _)
CumR(req, k) == IF k = 0 THEN 0 ELSE req[k].n + CumR(req, k - 1)
\* jobs are in request order, so the job that starts at shot s of the whole
\* sequence belongs to the request that contains shot s
OfReq(req, jobs, a_) == {k \in DOMAIN jobs : Cum(jobs, k - 1) >= CumR(req, a_ - 1) /\ Cum(jobs, k - 1) < CumR(req, a_)}
JobBags(jobs, S) == BagSum([q \in 1..Cardinality(S) |->
     LET nth == CHOOSE k \in S : Cardinality({x \in S : x <= k}) = q IN Bag(jobs[nth].res)])
Split == /\ Is("split") /\ UNCHANGED st
   /\ LET mine(a_) == OfReq(E.req, E.jobs, a_)
      IN Note({<<"M06.ran", E.ok>>,
               <<"M06.limit", E.max > 0 => \A k \in DOMAIN E.jobs : E.jobs[k].n \in 1..E.max>>,
               <<"M06.total", \A a_ \in DOMAIN E.req :
                     SumSeq([q \in DOMAIN E.jobs |-> IF q \in mine(a_) THEN E.jobs[q].n ELSE 0]) = E.req[a_].n>>,
               <<"M06.allshots", Cum(E.jobs, Len(E.jobs)) = CumR(E.req, Len(E.req))>>,
               <<"M06.owncircuit", \A a_ \in DOMAIN E.req : \A k \in mine(a_) : E.jobs[k].c = E.req[a_].c>>,
               <<"M06.onepereq", E.ok => Len(E.outs) = Len(E.req)>>,
               <<"M06.merged", E.ok => \A a_ \in DOMAIN E.req : a_ \in DOMAIN E.outs =>
                     SameBagF(Bag(E.outs[a_]), JobBags(E.jobs, mine(a_)))>>,
               <<"M06.bits", E.ok => \A a_ \in DOMAIN E.req : a_ \in DOMAIN E.outs =>
                     BitSet(E.outs[a_]) = {E.req[a_].bits[q] : q \in DOMAIN E.req[a_].bits}>>,
               <<"M06.input", E.unmodified>>})

(* --- transpiler backend -------------------------------------------------- *)
\* each call of the compiler pass is an event; it stamps its number on the
\* bits of the circuit, so a shot says which transpilation it came from
Transpile == /\ Is("transpile")
             /\ Goto([st EXCEPT !.tr = Append(@, E.c)])
             /\ Note({<<"M07.original", E.same>>})
Stamp(v) == LET RECURSIVE go(_)
                go(k) == IF k = 0 THEN 0 ELSE 2 * go(k - 1) + v[k] IN go(Len(v))
\* E.c circuit, E.n requested, E.res result of the handle read
Read == /\ Is("read") /\ UNCHANGED st
        /\ LET own == {k \in DOMAIN st.tr : st.tr[k] = E.id}
               seen == [j \in DOMAIN E.res.c |-> <<Stamp(E.res.c[j][1]), E.res.c[j][2]>>]
           IN Note({<<"M07.ran", E.ok>>,
                    <<"M07.total", SumSeq([j \in DOMAIN E.res.c |-> E.res.c[j][2]]) = E.n>>,
                    <<"M07.ontranspile", Cardinality(own) = E.n>>,
                    <<"M07.each_once", \A j \in DOMAIN seen : seen[j][2] = 1>>,
                    <<"M07.own", {seen[j][1] : j \in DOMAIN seen} = own>>,
                    <<"M07.bits", E.res.bits = E.bits>>,
                    <<"M07.unmodified", E.unmodified>>})

(* --- post-selection ------------------------------------------------------ *)
Zero(sh, B) == \A b \in B : sh[b] = 0
PostOf(r, comp, post) == Marginal(Select(Bag(r), LAMBDA sh : Zero(sh, ToSet(post))), ToSet(comp))
MergeOf(r, comp) == Marginal(Bag(r), ToSet(comp))
\* E.comp, E.post bits; E.ins results; E.outs: [none |-> BOOLEAN, r |-> result]
Fits(o, bag, comp) == IF Size(bag) = 0 THEN o.none \/ Size(Bag(o.r)) = 0
                      ELSE /\ ~o.none /\ SameBagF(Bag(o.r), bag)
                           /\ (comp # <<>> => o.r.bits = comp)
Post == /\ Is("post") /\ UNCHANGED st
        /\ Note({<<"L11.ran", E.ok>>,
                 <<"L11.count", E.ok => Len(E.outs) = Len(E.ins)>>,
                 <<"L11.kept", E.ok => \A k \in DOMAIN E.ins : k \in DOMAIN E.outs =>
                      Fits(E.outs[k], PostOf(E.ins[k].r, E.ins[k].comp, E.ins[k].post), E.ins[k].comp)>>,
                 <<"L11.merged", E.ok => \A k \in DOMAIN E.merged :
                      Fits(E.merged[k], MergeOf(E.ins[k].r, E.ins[k].comp), E.ins[k].comp)>>})
Overlap == /\ Is("overlap") /\ UNCHANGED st
           /\ Note({<<"L11.overlap", (ToSet(E.comp) \cap ToSet(E.post) # {}) <=> ~E.ok>>})

(* --- leakage detection ---------------------------------------------------- *)
\* E.circs[k]: [bits, jobbits, gadgets, qubits, prefix]; E.raw[k]: what the device
\* answered; E.outs[k]: result returned
Leak == /\ Is("leak") /\ UNCHANGED st
        /\ Note({<<"L12.ran", E.ok>>,
                 <<"L12.count", E.ok => Len(E.outs) = Len(E.circs) /\ Len(E.raw) = Len(E.circs)>>,
                 <<"L12.shots", \A k \in DOMAIN E.circs : k \in DOMAIN E.raw => E.raw[k].n = E.circs[k].n>>,
                 <<"L12.gadgets", \A k \in DOMAIN E.circs : k \in DOMAIN E.raw =>
                      Cardinality(ToSet(E.raw[k].r.bits) \ ToSet(E.circs[k].bits)) = E.circs[k].measured>>,

                 <<"L12.kept", E.ok => \A k \in DOMAIN E.circs : (k \in DOMAIN E.raw /\ k \in DOMAIN E.outs) =>
                      LET extra == ToSet(E.raw[k].r.bits) \ ToSet(E.circs[k].bits)
                          bag == Marginal(Select(Bag(E.raw[k].r), LAMBDA sh : Zero(sh, extra)),
                                          ToSet(E.raw[k].r.bits) \cap ToSet(E.circs[k].bits))
                      IN IF Size(bag) = 0 THEN E.outs[k].none \/ Size(Bag(E.outs[k].r)) = 0
                         ELSE ~E.outs[k].none /\
                              SameBagF(Marginal(Bag(E.outs[k].r), ToSet(E.raw[k].r.bits) \cap ToSet(E.circs[k].bits)), bag)>>,
                 <<"L12.bits", E.ok => \A k \in DOMAIN E.circs : k \in DOMAIN E.outs =>
                      (~E.outs[k].none => ToSet(E.outs[k].r.bits) = ToSet(E.circs[k].bits))>>,
                 <<"L12.ideal", (E.ok /\ ~E.leaky) => \A k \in DOMAIN E.circs : k \in DOMAIN E.outs =>
                      (~E.outs[k].none /\ SameBagF(Bag(E.outs[k].r), Bag(E.circs[k].ideal)))>>})

TInit == KInit(S0)
TNext == Split \/ Transpile \/ Read \/ Post \/ Overlap \/ Leak \/ Crash \/ Verdict
TSpec == TInit /\ [][TNext]_kvars
=============================================================================
