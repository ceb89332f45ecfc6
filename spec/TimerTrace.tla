----------------------------- MODULE TimerTrace ------------------------------
(* Conformance: histories of a real Timer under a controlled scheduler and   *)
(* virtual time.  Calls and returns are logged; the moment an operation takes*)
(* effect in between is chosen by TLC (linearizability), as are the moments  *)
(* at which the timer thread takes a job and queues a periodic one again.    *)
EXTENDS Timers, TraceBase
VARIABLES T, now, pend, closer, tth, slack
vars == <<l, T, now, pend, closer, tth, slack>>
Idle == [f |-> "none"]
Threads == 0..9
Reset == T' = New /\ now' = 0 /\ pend' = [i \in Threads |-> Idle] /\ closer' = 99 /\ tth' = 99 /\ slack' = 0
TInit == /\ l = 1 /\ T = New /\ now = 0 /\ pend = [i \in Threads |-> Idle] /\ closer = 99 /\ tth = 99 /\ slack = 0 /\ TLCSet(42, 1)

Waiting(i) == pend[i].f # "none" /\ ~pend[i].lin
Lin(i) ==
  LET p == pend[i] IN
  /\ Waiting(i) /\ UNCHANGED <<l, now, tth, slack>>
  /\ CASE p.f = "sched" ->
            \E t \in p.seen : LET o == Schedule(T, p.cb, t + p.delay, p.per) IN
              /\ T' = o[2] /\ pend' = [pend EXCEPT ![i] = [@ EXCEPT !.lin = TRUE, !.res = o[1]]] /\ UNCHANGED closer
       [] p.f \in {"cancel", "query"} ->
            LET o == IF p.f = "cancel" THEN Cancel(T, p.cb) ELSE Query(T, p.cb) IN
              /\ T' = o[2] /\ pend' = [pend EXCEPT ![i] = [@ EXCEPT !.lin = TRUE, !.res = o[1]]] /\ UNCHANGED closer
       [] p.f = "dump" ->
              /\ pend' = [pend EXCEPT ![i] = [@ EXCEPT !.lin = TRUE, !.res = "ok", !.list = IF T.alive THEN [k \in DOMAIN T.q |-> T.q[k].per] ELSE <<>>]] /\ UNCHANGED <<T, closer>>
       [] p.f = "close" ->
              /\ T' = Close(T) /\ closer' = IF T.alive THEN i ELSE closer
              /\ pend' = [pend EXCEPT ![i] = [@ EXCEPT !.lin = TRUE, !.res = "ok"]]
(* steps of the timer nobody sees *)
Silent ==
  \/ \E i \in Threads : Lin(i)
  \/ CanTake(T, now) /\ T' = Take(T) /\ UNCHANGED <<l, now, pend, closer, tth, slack>>
  \/ T.ph = "ended" /\ T' = Again(T) /\ UNCHANGED <<l, now, pend, closer, tth, slack>>
  \/ closer # 99 /\ CanDrain(T) /\ T' = Drain(T) /\ UNCHANGED <<l, now, pend, closer, tth, slack>>

Visible(e) ==
  CASE e.op = "call" ->
         /\ pend[e.th].f = "none"
         /\ pend' = [pend EXCEPT ![e.th] = [f |-> e.f, cb |-> e.cb, delay |-> e.delay, per |-> e.per, seen |-> {now}, lin |-> FALSE, res |-> "", told |-> FALSE, list |-> <<>>]]
         /\ UNCHANGED <<T, now, closer, tth, slack>>
    [] e.op = "ret" ->
         LET p == pend[e.th] IN
         /\ p.f # "none" /\ p.lin
         /\ IF p.res = "stopped" THEN p.told /\ e.res = "ok" ELSE e.res = p.res
         /\ p.f = "dump" => e.list = p.list
         /\ (p.f = "close" /\ closer = e.th) => Closed(T)
         /\ pend' = [pend EXCEPT ![e.th] = Idle]
         /\ closer' = IF closer = e.th /\ p.f = "close" THEN 99 ELSE closer
         /\ T' = IF closer = e.th /\ p.f = "close" THEN [T EXCEPT !.may = {}] ELSE T
         /\ UNCHANGED <<now, tth, slack>>
    [] e.op = "cbBegin" ->
         /\ T.ph = "taken" /\ T.run.cb = e.cb /\ T' = Begin(T)
         /\ ~e.client /\ tth \in {99, e.th} /\ tth' = e.th
         /\ UNCHANGED <<now, pend, closer, slack>>
    [] e.op = "cbEnd" ->
         /\ T.ph = "in" /\ T.run.cb = e.cb /\ e.th = tth /\ T' = Finish(T) /\ UNCHANGED <<now, pend, closer, tth, slack>>
    [] e.op = "stopped" ->
         \/ /\ closer = e.th /\ T.run = None /\ CanTell(T, e.cb) /\ T' = Tell(T, e.cb) /\ UNCHANGED <<now, pend, closer, tth, slack>>
         \/ /\ pend[e.th].f = "sched" /\ pend[e.th].lin /\ pend[e.th].res = "stopped" /\ ~pend[e.th].told /\ pend[e.th].cb = e.cb
            /\ pend' = [pend EXCEPT ![e.th] = [@ EXCEPT !.told = TRUE]] /\ UNCHANGED <<T, now, closer, tth, slack>>
    [] e.op = "tick" ->
         /\ e.t > now /\ now' = e.t
         (* everybody is blocked: nothing is half done, and nothing becomes overdue *)
         /\ e.idle => /\ \A i \in Threads : pend[i].f # "none" => pend[i].f = "close" /\ pend[i].lin
                      /\ T.ph \in {"none", "in"}
                      /\ ~Overdue(T, e.t - slack) /\ ~CanTake(T, now - slack)
                      /\ ~CanDrain(T)
         /\ pend' = [i \in Threads |-> IF Waiting(i) THEN [pend[i] EXCEPT !.seen = @ \cup {e.t}] ELSE pend[i]]
         (* time may pass between reading the clock and acting on it *)
         /\ slack' = IF e.idle THEN slack ELSE slack + (e.t - now)
         /\ UNCHANGED <<T, closer, tth>>
    (* everything is over and the timer destroyed *)
    [] e.op = "End" -> Closed(T) /\ T.drain = {} /\ (\A i \in Threads : pend[i].f = "none") /\ UNCHANGED <<T, now, pend, closer, tth, slack>>
    [] e.op = "Start" -> Reset
    [] OTHER -> FALSE
TNext == \/ Silent
         \/ /\ l <= TLen /\ l' = l + 1 /\ Visible(Trace[l]) /\ TLCSet(42, IF l + 1 > TLCGet(42) THEN l + 1 ELSE TLCGet(42))
TSpec == TInit /\ [][TNext]_vars
TInv == WellFormed(T)
TDone == PrintT(<<"MATCHED", TLCGet(42) - 1, TLen>>)
=============================================================================
