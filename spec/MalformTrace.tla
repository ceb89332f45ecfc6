---------------------------- MODULE MalformTrace ----------------------------
(* Judges decoding of arbitrary bytes: accepted only if the specification   *)
(* accepts them, then with the specified result; otherwise an exception and *)
(* a target that still satisfies its own type.                              *)
EXTENDS PVTypes, TraceBase
tvars == <<l>>
Same(e, d) == IF e.ok THEN d.ok /\ e.used = d.u /\ e.res = d.v ELSE TRUE
StatusDec(s, bo) ==
  IF s = <<>> THEN [ok |-> FALSE] ELSE IF s[1] = 255 THEN [ok |-> TRUE, t |-> 0, m |-> <<>>, k |-> <<>>, used |-> 1]
  ELSE IF s[1] > 3 THEN [ok |-> FALSE]
  ELSE LET a == StrDec(Drop(s, 1), bo) IN IF ~a.ok THEN [ok |-> FALSE]
  ELSE LET b == StrDec(Drop(s, 1 + a.used), bo) IN IF ~b.ok THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, t |-> s[1], m |-> a.b, k |-> b.b, used |-> 1 + a.used + b.used]
RECURSIVE Statuses(_, _, _, _)
Statuses(st, i, s, bo) ==
  IF i > Len(st) THEN TRUE
  ELSE LET d == StatusDec(s, bo)  x == st[i] IN
       IF x.ok THEN d.ok /\ x.used = d.used /\ x.t = d.t /\ x.m = d.m /\ x.k = d.k /\ Statuses(st, i + 1, Drop(s, x.used), bo)
       ELSE ~d.ok /\ x.t \in 0..3 /\ i = Len(st)
RECURSIVE Huge(_)       \* fixed arrays nobody can be asked to allocate
Huge(t) == CASE t.k = "sa" -> t.b = "f" /\ t.n > 1000
  [] t.k = "st" -> \E i \in 1..Len(t.f) : Huge(t.f[i]) [] OTHER -> FALSE
Judge(e) ==
  CASE e.op = "type" -> IF ~e.ok THEN TRUE
         ELSE LET d == DecT(e.in, e.bo) IN /\ d.ok /\ e.used = d.u /\ e.res = d.v
              /\ e.res.k # "none" => WfT(e.res) /\ (IF Huge(e.res) THEN e.inst = "huge" ELSE e.inst = "" /\ e.dflt = Default(e.res))
    [] e.op = "val" -> /\ e.ok => LET d == Dec(e.t, e.in, e.bo) IN d.ok /\ e.used = d.u /\ e.res = d.v
                       /\ Wf(e.t, e.res) /\ e.ex2 = "" /\ e.res2 = e.good
    [] e.op = "mask" -> /\ e.ok => LET d == DecM(e.t, e.pre, e.in, SeqToSet(e.m), 0, e.bo) IN d.ok /\ e.used = d.u /\ e.res = d.v
                        /\ Wf(e.t, e.res) /\ e.ex2 = "" /\ e.res2 = e.good
    [] e.op = "bits" -> IF e.ok /\ e.in # <<>> /\ e.in[1] = 255 THEN e.used = 1 /\ e.res = <<>>     \* a null size may stand for no bits
                        ELSE IF e.ok THEN LET d == BitsDec(e.in, e.bo) IN d.ok /\ e.used = d.used /\ SeqToSet(e.res) = d.set
                        ELSE \A i \in 1..Len(e.res) : e.res[i] >= 0
    [] e.op = "str" -> e.ok => LET d == StrDec(e.in, e.bo) IN d.ok /\ e.used = d.used /\ e.res = d.b
    [] e.op = "status" -> Statuses(e.st, 1, e.in, e.bo)
    [] e.op = "deep" -> e.sig = 0 /\ e.rc = 0
TInit == l = 1
TNext == LET e == Trace[l] IN
  /\ l <= TLen /\ l' = l + 1
  /\ \/ e.op = "Start"
     \/ e.op \in {"type", "val", "mask", "bits", "str", "status", "deep"} /\ Judge(e)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
