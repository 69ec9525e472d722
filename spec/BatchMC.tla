------------------------------ MODULE BatchMC -------------------------------
(* Design of the transpiler backend: a circuit submitted with n shots is cut *)
(* into batches of at most Max shots, each shot on a transpilation of its    *)
(* own; workers take batches in any order and finish in any order; the       *)
(* handle is there once every batch is in.  Handles are read at any time     *)
(* after that, any number of times.                                          *)
EXTENDS Results, TLC
CONSTANTS MaxSub, MaxShots, Max, Workers
VARIABLES subs,    \* shots requested, per handle
          wait,    \* batches not yet taken: <<handle, shot numbers>>
          busy,    \* worker -> batch, or <<>>
          got,     \* handle -> bag of shots <<handle, number>> collected
          ready,   \* handles given out
          reads    \* what reading gave: set of <<handle, bag>>
vars == <<subs, wait, busy, got, ready, reads>>

Init == /\ subs = <<>> /\ wait = {} /\ busy = [w \in 1..Workers |-> <<>>]
        /\ got = <<>> /\ ready = {} /\ reads = {}
Idle == wait = {} /\ \A w \in 1..Workers : busy[w] = <<>>
\* processing a circuit is one call; the next one starts when it has returned
Submit == /\ Len(subs) < MaxSub /\ Idle /\ ready = DOMAIN subs
          /\ \E n \in 0..MaxShots :
               LET h == Len(subs) + 1
                   full == {[j \in 1..Max |-> <<h, (k - 1) * Max + j>>] : k \in 1..(n \div Max)}
                   rest == IF n % Max = 0 THEN {} ELSE {[j \in 1..(n % Max) |-> <<h, n - (n % Max) + j>>]}
               IN /\ subs' = Append(subs, n) /\ wait' = full \cup rest
                  /\ got' = Append(got, EmptyBag)
          /\ UNCHANGED <<busy, ready, reads>>
Take == \E b \in wait, w \in 1..Workers :
          /\ busy[w] = <<>> /\ busy' = [busy EXCEPT ![w] = b] /\ wait' = wait \ {b}
          /\ UNCHANGED <<subs, got, ready, reads>>
RECURSIVE Adds(_, _)
Adds(f, b) == IF b = <<>> THEN f ELSE Adds(AddTo(f, b[1], 1), Tail(b))
Finish == \E w \in 1..Workers :
          /\ busy[w] # <<>>
          /\ LET h == busy[w][1][1] IN got' = [got EXCEPT ![h] = Adds(@, busy[w])]
          /\ busy' = [busy EXCEPT ![w] = <<>>]
          /\ UNCHANGED <<subs, wait, ready, reads>>
Give == /\ Idle /\ Len(subs) \notin ready /\ subs # <<>>
        /\ ready' = ready \cup {Len(subs)} /\ UNCHANGED <<subs, wait, busy, got, reads>>
Read == \E h \in ready : /\ reads' = reads \cup {<<h, got[h]>>}
                         /\ UNCHANGED <<subs, wait, busy, got, ready>>
Next == Submit \/ Take \/ Finish \/ Give \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Finish \/ Give)

ToSetOf(b) == {b[j] : j \in DOMAIN b}
InHand(h) == UNION {ToSetOf(b) : b \in {x \in wait \cup {busy[w] : w \in 1..Workers} : x # <<>> /\ x[1][1] = h}}
\* every shot is waiting, running or collected, and in one place only
OncePlaced == \A h \in DOMAIN subs : \A k \in 1..subs[h] :
                 (<<h, k>> \in DOMAIN got[h]) # (<<h, k>> \in InHand(h))
Once == \A h \in DOMAIN got : \A s \in DOMAIN got[h] : s[1] = h /\ got[h][s] = 1 /\ s[2] \in 1..subs[h]
Small == \A b \in wait : Len(b) \in 1..Max
Whole == \A r \in reads : DOMAIN r[2] = {<<r[1], k>> : k \in 1..subs[r[1]]}
Stable == \A r, q \in reads : r[1] = q[1] => r[2] = q[2]
Given == \A h \in 1..MaxSub : (Len(subs) = h) ~> (h \in ready)
=============================================================================
