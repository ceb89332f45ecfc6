------------------------------ MODULE StdTrace ------------------------------
(* C37.  kd: kind; t: type of the value; ps: the properties named; ch: the   *)
(* choices; e.r the type made, e.pt, e.v the type and value made             *)
EXTENDS StdTypes, TraceBase
vars == <<l>>
TInit == l = 1
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op = "type" -> LET ps == SeqToSet(e.ps) IN
         IF ~CanHave(e.kd, e.t, ps) THEN e.ex # "" ELSE e.ex = "" /\ e.r = StdType(e.kd, e.t, ps)
    [] e.op = "value" -> LET ps == SeqToSet(e.ps) IN
         IF ~CanHave(e.kd, e.t, ps) THEN e.ex # "" ELSE e.ex = "" /\ e.r = StdType(e.kd, e.t, ps) /\ e.v = StdVal(e.kd, e.t, ps, e.ch)
    [] e.op = "enum" -> e.ex = "" /\ e.r = EnumT /\ e.v = [f |-> <<<<0, 0, 0, 0>>, e.ch>>]      \* without properties
    [] e.op = "parts" -> /\ e.a = Alarm /\ e.ts = TimeStamp /\ e.di = Display /\ e.co = Control /\ e.bo = BoolAlarm /\ e.en = EnumAlarm
                         /\ e.enumt = EnumT /\ \A i \in 1..Len(e.num) : e.num[i].r = NumAlarm(e.num[i].t)
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l]) = TRUE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
