----------------------------- MODULE SpamHistMC ------------------------------
(* Histories of runs of one SPAM corrected MitRes: the device drifts, so     *)
(* every calibration is told from the others by when it was made.            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Steps, Most, Gen
VARIABLES now, held, done, hist
\* held: <<subsets, made at>> or <<"none", 0>>; done: runs; hist: what was asked for
vars == <<now, held, done, hist>>
Init == now = 0 /\ held = <<"none", 0>> /\ done = <<>> /\ hist = <<>>
Tick(h) == now < Steps /\ now' = now + 1 /\ hist' = IF Gen THEN Append(hist, h) ELSE hist
Run(k) == /\ Tick(<<"run", k>>)
          /\ LET cal == held[1] # "mine"
                 h == IF cal THEN <<"mine", now'>> ELSE held
             IN /\ held' = h
                /\ done' = Append(done, [cal |-> cal, ran |-> [j \in 1..k |-> j], out |-> [j \in 1..k |-> <<j, h[2]>>],
                                         had |-> held, at |-> now'])
Clear == Tick(<<"clear", 0>>) /\ held' = <<"none", 0>> /\ UNCHANGED done
Preset == Tick(<<"preset", 0>>) /\ held' = <<"mine", now'>> /\ UNCHANGED done
Other == Tick(<<"other", 0>>) /\ held' = <<"other", now'>> /\ UNCHANGED done
Next == (\E k \in 0..Most : Run(k)) \/ Clear \/ Preset \/ Other
Spec == Init /\ [][Next]_vars
\* calibrates exactly when nothing that matches is held, and corrects with the latest
Latest == \A j \in DOMAIN done : LET r == done[j] IN
             /\ r.cal <=> r.had[1] # "mine"
             /\ \A x \in DOMAIN r.out : r.out[x] = <<r.ran[x], IF r.cal THEN r.at ELSE r.had[2]>>
Once == \A j \in DOMAIN done : \A x, y \in DOMAIN done[j].ran : x # y => done[j].ran[x] # done[j].ran[y]
\* two runs in a row calibrate at most once
Twice == [][\A k, l \in 0..Most : (Run(k) /\ done # <<>> /\ done[Len(done)].at = now) => ~done'[Len(done')].cal]_vars
Emit == now = Steps => PrintT("GEN " \o ToJson(hist))
=============================================================================
