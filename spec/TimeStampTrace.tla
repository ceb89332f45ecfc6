--------------------------- MODULE TimeStampTrace ----------------------------
(* Conformance: histories on real TimeStamp objects.  ts[i] is what object i *)
(* denotes, in nanoseconds.  sec is logged as 8 bytes, nanoseconds as number.*)
EXTENDS TimeStamps, TraceBase, TLC
VARIABLES ts, tag
TInit == l = 1 /\ ts = <<>> /\ tag = <<>>
(* the parts the object reports are normalized and denote T *)
Shows(e, T) == Normal(e.ns) /\ NanoOf(SVal(e.sec), ZOf(e.ns)) = T
Cmp(e, c) == e.eq = (c = 0) /\ e.ne = (c # 0) /\ e.lt = (c < 0) /\ e.le = (c <= 0) /\ e.gt = (c > 0) /\ e.ge = (c >= 0)
Set(e, T) == Shows(e, T) /\ ts' = [ts EXCEPT ![e.n] = T] /\ e.tag = tag[e.n] /\ UNCHANGED tag
Step(e) ==
  CASE e.op = "new" -> LET T == NanoOf(SVal(e.a), SVal(e.b)) IN Shows(e, T) /\ ts' = Append(ts, T) /\ tag' = Append(tag, e.tag) /\ e.tag = e.tg
    [] e.op = "put" -> Set(e, NanoOf(SVal(e.a), SVal(e.b)))
    [] e.op = "putms" -> Set(e, ZMul(SVal(e.a), ZOf(1000000)))
    [] e.op = "time_t" -> Set(e, ZMul(SVal(e.a), G))
    [] e.op = "add" -> Set(e, ZAdd(ts[e.n], ZMul(SVal(e.a), G)))
    [] e.op = "sub" -> Set(e, ZSub(ts[e.n], ZMul(SVal(e.a), G)))
    [] e.op \in {"addf", "subf"} ->
         LET x == Flt(e.a)  y == IF e.op = "addf" THEN x ELSE [x EXCEPT !.s = -@]  T == NanoOf(SVal(e.sec), ZOf(e.ns)) IN
         Normal(e.ns) /\ AddedOk(ts[e.n], T, y) /\ ts' = [ts EXCEPT ![e.n] = T] /\ e.tag = tag[e.n] /\ UNCHANGED tag
    [] e.op = "copy" -> Shows(e, ts[e.m]) /\ ts' = [ts EXCEPT ![e.n] = ts[e.m]] /\ tag' = [tag EXCEPT ![e.n] = tag[e.m]] /\ e.tag = tag[e.m]
    [] e.op = "settag" -> e.tag = e.tg /\ Shows(e, ts[e.n]) /\ tag' = [tag EXCEPT ![e.n] = e.tg] /\ UNCHANGED ts
    [] e.op = "cmp" -> Cmp(e, ZCmp(ts[e.n], ts[e.m])) /\ UNCHANGED <<ts, tag>>
    [] e.op = "diff" -> SecondsOk(Flt(e.r), ZSub(ts[e.n], ts[e.m])) /\ UNCHANGED <<ts, tag>>
    [] e.op = "read" -> /\ SecondsOk(Flt(e.r), ts[e.n]) /\ UNCHANGED <<ts, tag>>
                        /\ SVal(e.eps) = ZSub(SVal(e.sec), ZOf(631152000)) /\ Shows(e, ts[e.n])
                        /\ (e.msok => SVal(e.ms) = ZFloorDiv(ts[e.n], 1000000))
                        /\ (e.ttok => ZMul(SVal(e.tt), G) = ZSub(ts[e.n], ZOf(e.ns)))
    [] e.op = "now" -> Normal(e.ns) /\ LET T == NanoOf(SVal(e.sec), ZOf(e.ns)) IN
                        /\ ZLe(NanoOf(SVal(e.a), ZOf(-1000000)), T) /\ ZLe(T, NanoOf(SVal(e.b), ZOf(1001000000)))
                        /\ ts' = [ts EXCEPT ![e.n] = T] /\ UNCHANGED tag
TNext == /\ l <= TLen /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op = "Start" THEN ts' = <<>> /\ tag' = <<>> ELSE Step(e)
TSpec == TInit /\ [][TNext]_<<l, ts, tag>>
=============================================================================
