----------------------------- MODULE NamesTrace -----------------------------
(* C39 *)
EXTENDS Names, TraceBase
vars == <<l>>
TInit == l = 1
IsType(t) == t \in ScalarTypes
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op = "class" -> /\ [int |-> e.int, uint |-> e.uint, num |-> e.num, prim |-> e.prim] = Class(e.n)
         /\ IF IsCode(e.n)
            THEN /\ e.ex = "" /\ e.name = NameOfCode(e.n) /\ e.shown = e.name /\ e.sx = ""
                 /\ LET w == Width(Order[e.n + 1]) IN e.size = (IF w = 0 THEN e.str ELSE w)
            ELSE e.ex # "" /\ e.sx # ""
    [] e.op = "kind" -> IF e.n \in 0..(Len(KindNames) - 1) THEN e.ex = "" /\ e.name = KindNames[e.n + 1] /\ e.shown = e.name ELSE e.ex # ""
    [] e.op = "parse" -> LET n == CodeOf(e.s) IN IF n = -1 THEN e.ex # "" ELSE e.ex = "" /\ e.r = n
    [] e.op = "alloc" -> IF IsCode(e.n) THEN LET t == Order[e.n + 1] IN
            e.ex = "" /\ e.t = t /\ e.len = e.want /\ (t = "string" => e.v = [i \in 1..e.want |-> <<>>])   \* numbers are left as they come
         ELSE e.ex # ""
    [] e.op = "sev" -> IF e.n \in 0..4 THEN e.ex = "" /\ e.r = e.n ELSE e.ex # ""
    [] e.op = "stat" -> IF e.n \in 0..7 THEN e.ex = "" /\ e.r = e.n ELSE e.ex # ""
    [] e.op = "words" -> e.sev = Severities /\ e.stat = Statuses
    [] e.op = "alarm" ->  \* an Alarm given a severity, status and message
         e.sev = e.s /\ e.stat = e.st /\ e.msg = e.m
    [] e.op = "guess" -> IF e.k \in {"s", "sa"} THEN e.ex = "" /\ e.r = Guess(e.u, e.k, e.s) ELSE e.ex # ""
    [] e.op = "make" -> e.r = e.t /\ e.v = Default(e.t) /\ e.off = 0 /\ e.nums = Numbers(e.t, 0) /\ ~e.imm /\ e.name = <<>> /\ e.root
    [] e.op = "clone" -> e.r = e.t /\ e.w = e.v /\ e.src = e.v /\ e.off = 0 /\ e.nums = Numbers(e.t, 0) /\ ~e.imm /\ e.name = <<>> /\ e.root /\ ~e.same
    [] e.op = "parts" -> IF DistinctNames(e.n) /\ \A i \in 1..Len(e.n) : NameOk(e.n[i])
         THEN LET T == Made(e.n, e.f) IN e.ex = "" /\ e.r = T /\ e.v = [f |-> e.p] /\ e.nums = Numbers(T, 0) /\ e.same /\ e.found
         ELSE e.ex # ""
    [] e.op = "nothing" -> e.r = Made(<<>>, <<>>) /\ e.v = [f |-> <<>>]
    [] e.op = "assign" -> e.r = e.x /\ e.o = e.x
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l]) = TRUE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
