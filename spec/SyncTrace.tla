------------------------------ MODULE SyncTrace ------------------------------
(* Conformance: several threads using real Event, Lock and Thread objects    *)
(* under the controlled scheduler and virtual time.                          *)
EXTENDS Sync, TraceBase
VARIABLES S, now, pend
vars == <<l, S, now, pend>>
Idle == [f |-> "none"]
Threads == 0..9
NT == [i \in Threads |-> Idle]
TInit == l = 1 /\ S = New(<<>>) /\ now = 0 /\ pend = NT /\ TLCSet(42, 1)
Waiting(i) == pend[i].f # "none" /\ ~pend[i].lin
(* <<result, next state>> for every way operation p of thread i can take effect now *)
Outcomes(p, i) ==
  CASE p.f = "signal" -> {<<"ok", Signal(S, p.n)>>}
    [] p.f = "wait" -> IF CanWait(S, p.n) THEN {<<"true", Consume(S, p.n)>>} ELSE {}
    [] p.f = "waitt" -> IF CanWait(S, p.n) THEN {<<"true", Consume(S, p.n)>>} ELSE IF now >= p.t0 + p.d THEN {<<"false", S>>} ELSE {}
    [] p.f = "try" -> {IF CanWait(S, p.n) THEN <<"true", Consume(S, p.n)>> ELSE <<"false", S>>}
    [] p.f = "guard" -> IF CanLock(S, p.n, i) THEN {<<"ok", NewGuard(S, p.id, p.n, i)>>} ELSE {}
    [] p.f = "lock" -> IF S.gd[p.n].on \/ CanLock(S, S.gd[p.n].m, i) THEN {<<"ok", GLock(S, p.n, i)>>} ELSE {}
    [] p.f = "trylock" -> {IF S.gd[p.n].on \/ CanLock(S, S.gd[p.n].m, i) THEN <<"true", GLock(S, p.n, i)>> ELSE <<"false", S>>}
    [] p.f \in {"unlock", "unguard"} -> {<<"ok", GUnlock(S, p.n)>>}
    [] p.f = "owns" -> {<<IF S.gd[p.n].on THEN "true" ELSE "false", S>>}
    [] p.f = "thread" -> {<<"ok", NewThread(S, p.n, p.name, p.auto)>>}
    [] p.f = "norunner" -> {<<"throw", S>>}
    [] p.f = "start" -> {<<"ok", Start(S, p.n)>>}
    [] p.f \in {"join", "joint", "destroy"} ->
         (IF S.th[p.n].st \in {"done", "gone"} THEN {<<"ok", S>>} ELSE {})
         \cup (IF p.f = "destroy" /\ S.th[p.n].st = "new" THEN {<<"ok", [S EXCEPT !.th[p.n].st = "gone"]>>} ELSE {})
         \cup (IF p.f = "joint" /\ now >= p.t0 + p.d /\ S.th[p.n].st # "done" THEN {<<"false", S>>} ELSE {})
(* asking a thread to exit before its body has begun cancels it *)
Cancel(i) == /\ Waiting(i) /\ pend[i].f \in {"join", "joint", "destroy"} /\ S.th[pend[i].n].st = "go"
             /\ S' = [S EXCEPT !.th[pend[i].n].st = "gone"] /\ UNCHANGED <<l, now, pend>>
Lin(i) == /\ Waiting(i) /\ \E o \in Outcomes(pend[i], i) :
               /\ S' = o[2]
               /\ pend' = [pend EXCEPT ![i] = [@ EXCEPT !.lin = TRUE, !.res = o[1]]]
          /\ UNCHANGED <<l, now>>
Visible(e) ==
  CASE e.op = "call" ->
         /\ pend[e.th].f = "none" /\ UNCHANGED <<S, now>>
         /\ pend' = [pend EXCEPT ![e.th] = [f |-> e.f, n |-> e.n, d |-> e.d, name |-> e.name, auto |-> e.auto, t0 |-> now, lin |-> FALSE, res |-> "", id |-> e.id]]
    [] e.op = "ret" -> LET p == pend[e.th] IN
         /\ p.f # "none" /\ p.lin /\ e.res = p.res /\ pend' = [pend EXCEPT ![e.th] = Idle] /\ UNCHANGED <<S, now>>
    [] e.op = "begin" -> /\ e.n \in DOMAIN S.th /\ S.th[e.n].st = "go" /\ e.name = S.th[e.n].name /\ S' = [S EXCEPT !.th[e.n].st = "in"] /\ UNCHANGED <<now, pend>>
    [] e.op = "end" -> /\ e.n \in DOMAIN S.th /\ S.th[e.n].st = "in" /\ S' = [S EXCEPT !.th[e.n].st = "done"] /\ UNCHANGED <<now, pend>>
    [] e.op = "tick" ->
         /\ e.t > now /\ now' = e.t /\ UNCHANGED <<S, pend>>
         (* everybody is blocked: nobody could go on, and no timeout is passed *)
         /\ e.idle => /\ \A i \in Threads : Waiting(i) =>
                             /\ {o \in Outcomes(pend[i], i) : ~(pend[i].f \in {"waitt", "joint"} /\ o[1] = "false")} = {}
                             /\ pend[i].f \in {"waitt", "joint"} => e.t <= pend[i].t0 + pend[i].d + e.slack + 1
                      /\ \A i \in Threads : pend[i].f = "none" \/ ~pend[i].lin
                      /\ \A t \in DOMAIN S.th : S.th[t].st # "go"
    [] e.op = "End" -> /\ \A i \in Threads : pend[i].f = "none"
                       /\ \A t \in DOMAIN S.th : S.th[t].st \in {"done", "gone"}
                       /\ \A m \in DOMAIN S.own : S.own[m] = Free
                       /\ UNCHANGED <<S, now, pend>>
    [] e.op = "Start" -> S' = New(e.full) /\ now' = 0 /\ pend' = NT
    [] OTHER -> FALSE
TNext == \/ \E i \in Threads : Lin(i) \/ Cancel(i)
         \/ /\ l <= TLen /\ l' = l + 1 /\ Visible(Trace[l]) /\ TLCSet(42, IF l + 1 > TLCGet(42) THEN l + 1 ELSE TLCGet(42))
TSpec == TInit /\ [][TNext]_vars
TDone == PrintT(<<"MATCHED", TLCGet(42) - 1, TLen>>)
=============================================================================
