------------------------------- MODULE Timers --------------------------------
(* What a timer is to its users, as an atomic object.                        *)
(*   q      the queued schedulings [cb, due, per], in the order they will run*)
(*   run    the scheduling whose callback is in progress, or None            *)
(*   ph     "taken": no longer queued, its callback is about to begin; "in": *)
(*          its callback is in progress; "ended": it has returned (a periodic*)
(*          one is about to be queued again)                                 *)
(*   alive  not closed                                                       *)
(*   drain  callbacks the closing thread still has to tell                   *)
(*   may    callbacks cancelled while closing: they may be told or not       *)
EXTENDS Naturals, Sequences, FiniteSets
None == [cb |-> 0, due |-> 0, per |-> 0]
New == [q |-> <<>>, run |-> None, ph |-> "none", alive |-> TRUE, drain |-> {}, may |-> {}]

Queued(T, cb) == \E i \in DOMAIN T.q : T.q[i].cb = cb
Insert(q, r) ==   (* behind everything due no later: equal times keep their order *)
  LET k == Cardinality({i \in DOMAIN q : q[i].due <= r.due}) IN SubSeq(q, 1, k) \o <<r>> \o SubSeq(q, k+1, Len(q))
Drop(q, cb) == SelectSeq(q, LAMBDA r : r.cb # cb)
Running(T) == T.run # None

(* outcomes of the operations: <<result, next state>> *)
Schedule(T, cb, due, per) ==
  IF Queued(T, cb) THEN <<"throw", T>>
  ELSE IF ~T.alive THEN <<"stopped", T>>
  ELSE <<"ok", [T EXCEPT !.q = Insert(@, [cb |-> cb, due |-> due, per |-> per])]>>
Cancel(T, cb) ==
  IF ~Queued(T, cb) THEN <<"false", T>>
  ELSE <<"true", [T EXCEPT !.q = Drop(@, cb), !.may = IF T.alive THEN @ ELSE @ \cup {cb}]>>
Query(T, cb) == <<IF Queued(T, cb) THEN "true" ELSE "false", T>>
Close(T) == [T EXCEPT !.alive = FALSE]

(* the timer thread *)
CanTake(T, now) == T.alive /\ T.run = None /\ T.q # <<>> /\ T.q[1].due <= now
Take(T) == [T EXCEPT !.run = T.q[1], !.ph = "taken", !.q = Tail(@)]
Begin(T) == [T EXCEPT !.ph = "in"]
Finish(T) == [T EXCEPT !.ph = "ended"]
(* a periodic callback is queued again, unless it was rescheduled meanwhile *)
Again(T) ==
  LET r == T.run  T1 == [T EXCEPT !.run = None, !.ph = "none"] IN
  IF r.per > 0 /\ T.alive /\ ~Queued(T, r.cb) THEN [T1 EXCEPT !.q = Insert(@, [r EXCEPT !.due = @ + r.per])] ELSE T1
(* the closing thread, once no callback is in progress *)
CanDrain(T) == ~T.alive /\ T.run = None /\ T.q # <<>>
Drain(T) == [T EXCEPT !.q = Tail(@), !.drain = @ \cup {T.q[1].cb}]
CanTell(T, cb) == cb \in T.drain \/ cb \in T.may
Tell(T, cb) == IF cb \in T.drain THEN [T EXCEPT !.drain = @ \ {cb}] ELSE [T EXCEPT !.may = @ \ {cb}]
Closed(T) == ~T.alive /\ T.run = None /\ T.q = <<>> /\ T.drain = {}

(* the next moment at which the timer has to act on its own *)
Overdue(T, t) == T.alive /\ T.run = None /\ T.q # <<>> /\ T.q[1].due < t
WellFormed(T) == /\ \A i, j \in DOMAIN T.q : i < j => T.q[i].due <= T.q[j].due /\ T.q[i].cb # T.q[j].cb
                 /\ (T.ph # "none") = (T.run # None)
=============================================================================
