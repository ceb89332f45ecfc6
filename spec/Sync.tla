-------------------------------- MODULE Sync ---------------------------------
(* Events, lock guards and threads as atomic objects.                        *)
(*   ev[e]    the flag of event e                                            *)
(*   own[m]   <<thread, how often>> of the (recursive) mutex m; <<99, 0>>    *)
(*   gd[g]    guard g: [m, on, th]                                           *)
(*   th[t]    thread object t: [st, name]; st "new" not started, "go" started*)
(*            "in" its body runs, "done", "gone" destroyed unstarted         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Free == <<99, 0>>
New(full) == [ev |-> full, own |-> <<Free, Free>>, gd |-> [x \in {} |-> 0], th |-> [x \in {} |-> 0]]
Signal(S, e) == [S EXCEPT !.ev[e] = TRUE]
CanWait(S, e) == S.ev[e]
Consume(S, e) == [S EXCEPT !.ev[e] = FALSE]
(* mutexes *)
CanLock(S, m, i) == S.own[m][1] \in {99, i}
Acq(S, m, i) == [S EXCEPT !.own[m] = <<i, @[2] + 1>>]
Rel(S, m) == [S EXCEPT !.own[m] = IF @[2] = 1 THEN Free ELSE <<@[1], @[2] - 1>>]
NewGuard(S, g, m, i) == [Acq(S, m, i) EXCEPT !.gd = (g :> [m |-> m, on |-> TRUE]) @@ @]
GLock(S, g, i) == IF S.gd[g].on THEN S ELSE [Acq(S, S.gd[g].m, i) EXCEPT !.gd[g].on = TRUE]
GUnlock(S, g) == IF S.gd[g].on THEN [Rel(S, S.gd[g].m) EXCEPT !.gd[g].on = FALSE] ELSE S
(* threads *)
NewThread(S, t, name, auto) == [S EXCEPT !.th = (t :> [st |-> IF auto THEN "go" ELSE "new", name |-> name]) @@ @]
Start(S, t) == [S EXCEPT !.th[t].st = "go"]
CanJoin(S, t) == S.th[t].st \in {"done", "new"}
Exclusive(S) == \A m \in DOMAIN S.own : (S.own[m][2] = 0) = (S.own[m] = Free)
Held(S) == \A m \in DOMAIN S.own : S.own[m][2] = Cardinality({g \in DOMAIN S.gd : S.gd[g].m = m /\ S.gd[g].on})
=============================================================================
