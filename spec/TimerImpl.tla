------------------------------ MODULE TimerImpl ------------------------------
(* How the timer works inside: one mutex, a `waiting' flag, an event that    *)
(* wakes the timer thread, a clock value read outside the lock.  Checked:    *)
(* it implements the atomic object of Timers.tla, no wake-up is lost (time   *)
(* never has to pass a due callback while everybody is blocked), close       *)
(* terminates, and every callback is accounted for.                          *)
EXTENDS Timers, Integers, TLC
CONSTANTS Cbs, Clients, Ops, MaxClock, Delays, Periods, Lazy
VARIABLES q, alive, waiting, ev,          \* shared
          clock,
          pc, nowv, tmo, job, cbop,        \* timer thread; cbop: operations callbacks may still do
          cpc, arg, left,                  \* clients
          drain, told, closer
vars == <<q, alive, waiting, ev, clock, pc, nowv, tmo, job, cbop, cpc, arg, left, drain, told, closer>>
Inf == 1000
Init == /\ q = <<>> /\ alive = TRUE /\ waiting = FALSE /\ ev = FALSE /\ clock = 0
        /\ pc = "loop" /\ nowv = 0 /\ tmo = Inf /\ job = None /\ cbop = 1
        /\ cpc = [c \in Clients |-> "idle"] /\ arg = [c \in Clients |-> None] /\ left = [c \in Clients |-> Ops]
        /\ drain = <<>> /\ told = {} /\ closer = 0
OnList(cb) == (\E i \in DOMAIN q : q[i].cb = cb) \/ (\E i \in DOMAIN drain : drain[i].cb = cb /\ drain[i].per >= 0)
uC == UNCHANGED <<cpc, arg, left, drain, told, closer>>
uT == UNCHANGED <<pc, nowv, tmo, job, cbop>>

(* ------------------------------------------------------- timer thread *)
Loop ==
  /\ pc = "loop" /\ uC /\ UNCHANGED <<alive, ev, clock, cbop>>
  /\ IF ~alive THEN pc' = "exit" /\ UNCHANGED <<q, waiting, nowv, tmo, job>>
     ELSE IF q = <<>> THEN pc' = "wait" /\ waiting' = TRUE /\ tmo' = Inf /\ UNCHANGED <<q, nowv, job>>
     ELSE IF q[1].due <= nowv THEN pc' = "cb" /\ job' = q[1] /\ q' = Tail(q) /\ UNCHANGED <<waiting, nowv, tmo>>
     ELSE nowv' = clock /\ IF q[1].due <= clock THEN UNCHANGED <<pc, q, waiting, tmo, job>>
                           ELSE pc' = "wait" /\ waiting' = TRUE /\ tmo' = q[1].due - clock /\ UNCHANGED <<q, job>>
(* the relative timeout becomes a deadline when the wait begins *)
WaitIn == /\ pc = "wait" /\ pc' = "waiting" /\ tmo' = (IF tmo = Inf THEN Inf ELSE clock + tmo) /\ uC /\ UNCHANGED <<q, alive, waiting, ev, clock, nowv, job, cbop>>
Wake == /\ pc = "waiting" /\ (ev \/ clock >= tmo) /\ ev' = FALSE /\ nowv' = clock /\ pc' = "relock" /\ uC /\ UNCHANGED <<q, alive, waiting, clock, tmo, job, cbop>>
Relock == /\ pc = "relock" /\ waiting' = FALSE /\ pc' = "loop" /\ uC /\ UNCHANGED <<q, alive, ev, clock, nowv, tmo, job, cbop>>
CbBegin == pc = "cb" /\ pc' = "in" /\ uC /\ UNCHANGED <<q, alive, waiting, ev, clock, nowv, tmo, job, cbop>>
(* a callback may schedule (itself or another one) or cancel *)
CbOp == /\ pc = "in" /\ cbop > 0 /\ cbop' = cbop - 1 /\ uC /\ UNCHANGED <<alive, waiting, ev, clock, pc, nowv, tmo, job>>
        /\ \E cb \in Cbs : \/ alive /\ ~OnList(cb) /\ \E d \in Delays : q' = Insert(q, [cb |-> cb, due |-> clock + d, per |-> 0])
                           \/ alive /\ OnList(cb) /\ q' = Drop(q, cb)
CbEnd == pc = "in" /\ pc' = "post" /\ uC /\ UNCHANGED <<q, alive, waiting, ev, clock, nowv, tmo, job, cbop>>
Post == /\ pc = "post" /\ pc' = "loop" /\ job' = None
        /\ q' = IF job.per > 0 /\ alive /\ ~OnList(job.cb) THEN Insert(q, [job EXCEPT !.due = @ + job.per]) ELSE q
        /\ uC /\ UNCHANGED <<alive, waiting, ev, clock, nowv, tmo, cbop>>
Timer == Loop \/ WaitIn \/ Wake \/ Relock \/ CbBegin \/ CbOp \/ CbEnd \/ Post

(* ------------------------------------------------------------- clients *)
Goto(c, p) == cpc' = [cpc EXCEPT ![c] = p]
StartSched(c) == /\ cpc[c] = "idle" /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1] /\ Goto(c, "sched")
                 /\ \E cb \in Cbs, d \in Delays, p \in Periods : arg' = [arg EXCEPT ![c] = [cb |-> cb, due |-> clock + d, per |-> p]]
                 /\ uT /\ UNCHANGED <<q, alive, waiting, ev, clock, drain, told, closer>>
DoSched(c) == /\ cpc[c] = "sched" /\ uT /\ UNCHANGED <<alive, waiting, ev, clock, arg, left, drain, closer>>
              /\ IF OnList(arg[c].cb) THEN Goto(c, "idle") /\ UNCHANGED <<q, told>>
                 ELSE IF ~alive THEN Goto(c, "idle") /\ told' = told \cup {arg[c].cb} /\ UNCHANGED q
                 ELSE /\ q' = Insert(q, arg[c]) /\ UNCHANGED told
                      /\ Goto(c, IF waiting /\ q'[1] = arg[c] THEN "signal" ELSE "idle")
Signal(c) == /\ cpc[c] = "signal" /\ ev' = TRUE /\ Goto(c, "idle") /\ uT /\ UNCHANGED <<q, alive, waiting, clock, arg, left, drain, told, closer>>
DoCancel(c) == /\ cpc[c] = "idle" /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1] /\ UNCHANGED <<alive, waiting, ev, clock, arg, cpc, told, closer>> /\ uT
               /\ \E cb \in Cbs : /\ OnList(cb)
                                  /\ q' = IF alive THEN Drop(q, cb) ELSE q
                                  /\ drain' = [i \in DOMAIN drain |-> IF drain[i].cb = cb THEN [drain[i] EXCEPT !.per = -1] ELSE drain[i]]
DoClose(c) == /\ cpc[c] = "idle" /\ left[c] = 0 /\ uT /\ UNCHANGED <<q, waiting, ev, clock, arg, left, drain, told>>
              /\ IF alive THEN alive' = FALSE /\ closer' = c /\ Goto(c, "csig") ELSE Goto(c, "done") /\ UNCHANGED <<alive, closer>>
CSig(c) == cpc[c] = "csig" /\ ev' = TRUE /\ Goto(c, "cexit") /\ uT /\ UNCHANGED <<q, alive, waiting, clock, arg, left, drain, told, closer>>
CExit(c) == cpc[c] = "cexit" /\ pc = "exit" /\ drain' = q /\ q' = <<>> /\ Goto(c, "cdrain") /\ uT /\ UNCHANGED <<alive, waiting, ev, clock, arg, left, told, closer>>
CDrain(c) == /\ cpc[c] = "cdrain" /\ uT /\ UNCHANGED <<q, alive, waiting, ev, clock, arg, left, closer>>
             /\ IF drain = <<>> THEN Goto(c, "done") /\ UNCHANGED <<drain, told>>
                ELSE told' = told \cup {drain[1].cb} /\ drain' = Tail(drain) /\ UNCHANGED cpc
Client(c) == StartSched(c) \/ DoSched(c) \/ Signal(c) \/ DoCancel(c) \/ DoClose(c) \/ CSig(c) \/ CExit(c) \/ CDrain(c)

(* --------------------------------------------------------------- time *)
Busy == \/ pc \in {"loop", "wait", "relock", "cb", "post"} \/ (pc = "waiting" /\ (ev \/ clock >= tmo))
        \/ \E c \in Clients : cpc[c] \in {"sched", "signal", "csig", "cdrain"} \/ (cpc[c] = "cexit" /\ pc = "exit")
Tick == /\ clock < MaxClock /\ (Lazy \/ ~Busy) /\ clock' = clock + 1
        /\ UNCHANGED <<q, alive, waiting, ev, pc, nowv, tmo, job, cbop, cpc, arg, left, drain, told, closer>>
Next == Timer \/ (\E c \in Clients : Client(c)) \/ Tick
Fairness == WF_vars(Timer) /\ (\A c \in Clients : WF_vars(DoSched(c) \/ Signal(c) \/ DoClose(c) \/ CSig(c) \/ CExit(c) \/ CDrain(c))) /\ WF_vars(Tick)
Spec == Init /\ [][Next]_vars /\ Fairness

(* ---------------------------------------------------------- properties *)
(* the atomic timer this implements *)
Abs == [q |-> IF closer # 0 /\ cpc[closer] = "cdrain" THEN SelectSeq(drain, LAMBDA r : r.per >= 0) ELSE q,
        run |-> job, ph |-> IF job = None THEN "none" ELSE IF pc = "cb" THEN "taken" ELSE IF pc = "in" THEN "in" ELSE "ended",
        alive |-> alive, drain |-> {}, may |-> {}]
Plain(T) == [T EXCEPT !.drain = {}, !.may = {}]
AbsNext == Abs' # Abs =>
  \/ \E cb \in Cbs, d \in 0..(MaxClock + 4), p \in Periods : Abs' = Schedule(Abs, cb, d, p)[2]
  \/ \E cb \in Cbs : Abs' = Plain(Cancel(Abs, cb)[2])
  \/ Abs' = Close(Abs)
  \/ CanTake(Abs, clock) /\ Abs' = Take(Abs)
  \/ Abs.ph = "taken" /\ Abs' = Begin(Abs)
  \/ Abs.ph = "in" /\ Abs' = Finish(Abs)
  \/ Abs.ph = "ended" /\ Abs' = Again(Abs)
  \/ CanDrain(Abs) /\ Abs' = Plain(Drain(Abs))
Implements == [][AbsNext]_vars
NeverEarly == job # None => job.due <= clock
(* nobody can move without time passing: nothing is overdue *)
NoLostWakeup == ~Lazy => ((~Busy /\ pc # "in") => ~CanTake(Abs, clock))
Sleeping == (~Busy /\ pc = "waiting" /\ alive /\ ~ENABLED Wake) => (q = <<>> \/ tmo <= q[1].due \/ Lazy)
Order == WellFormed(Abs)
AfterClose == \A c \in Clients : (c = closer /\ cpc[c] = "done") => pc = "exit" /\ q = <<>> /\ drain = <<>>
CloseEnds == \A c \in Clients : (cpc[c] = "csig") ~> (cpc[c] = "done")
=============================================================================
