--------------------------- MODULE DebugPtrTrace ---------------------------
EXTENDS DebugPtr, TraceBase
VARIABLES P
vars == <<l, P>>
TInit == l = 1 /\ P = P0
(* every pointer reports what the state says; x.refs are strong slots, -1 an unknown address *)
StrongOk(Q, x) == /\ x.s \in DOMAIN Q.st /\ LET g == Q.st[x.s] IN
                        x.o = Get(Q, g) /\ (g = 0 \/ x.n = Uses(Q, g)) /\ SeqToSet(x.refs) = Refs(Q, g) /\ Len(x.refs) = Uses(Q, g) /\ x.bool = (g # 0) /\ (g = 0 \/ x.uniq = (Uses(Q, g) = 1))
                        /\ x.lines = <<Uses(Q, g), IF g = 0 THEN 0 ELSE Uses(Q, g) - 1>>
WeakOk(Q, x) == /\ x.w \in DOMAIN Q.wk /\ LET g == Q.wk[x.w] IN
                      (g = 0 \/ x.exp = ~Live(Q, g)) /\ (g = 0 \/ x.n = Uses(Q, g)) /\ SeqToSet(x.refs) = Refs(Q, g)
Observed(Q, e) == /\ SeqToSet(e.dead) = Q.dead
                  /\ {e.st[i].s : i \in 1..Len(e.st)} = DOMAIN Q.st /\ \A i \in 1..Len(e.st) : StrongOk(Q, e.st[i])
                  /\ {e.wk[i].w : i \in 1..Len(e.wk)} = DOMAIN Q.wk /\ \A i \in 1..Len(e.wk) : WeakOk(Q, e.wk[i])
W(w) == IF w \in DOMAIN P.wk THEN P.wk[w] ELSE 0
(* what threads left behind: each slot what its thread put there, the pointers of an *)
(* object knowing exactly each other, objects without one dead                     *)
Shared(e) ==
  LET S == 1..Len(e.st) IN
  /\ \A i \in S : LET x == e.st[i] same == {j \in S : e.st[j].o = x.o} IN
       x.s = i /\ x.o = x.e /\ (IF x.o = 0 THEN x.n = 0 /\ x.refs = <<>> ELSE x.n = Cardinality(same) /\ Len(x.refs) = x.n /\ SeqToSet(x.refs) = same)
  /\ SeqToSet(e.dead) = {k \in 1..e.objs : \A i \in S : e.st[i].o # k}
Step(e) == LET Q ==
  CASE e.op = "new" -> NewGroup(NewObj(P, e.o, TRUE), e.s, e.g, e.o)
    [] e.op = "object" -> NewObj(P, e.o, FALSE)
    [] e.op = "alias" -> NewGroup(P, e.s, e.g, e.o)
    [] e.op = "null" -> SetS(P, e.s, 0)
    [] e.op \in {"copy", "assign", "cast"} -> SetS(P, e.s, P.st[e.t])
    [] e.op = "badcast" -> SetS(P, e.s, 0)
    [] e.op = "drop" -> DropS(P, e.s)
    [] e.op = "swap" -> Swap(P, e.s, e.t)
    [] e.op = "weak" -> SetW(P, e.w, P.st[e.s])
    [] e.op = "wcopy" -> SetW(P, e.w, P.wk[e.v])
    [] e.op = "wreset" -> SetW(P, e.w, 0)
    [] e.op = "wdrop" -> DropW(P, e.w)
    [] e.op = "lock" -> SetS(P, e.s, Lock(P, e.w))
    [] e.op = "fromweak" -> IF Live(P, P.wk[e.w]) \/ (P.wk[e.w] = 0 /\ e.ok) THEN SetS(P, e.s, P.wk[e.w]) ELSE P
    [] e.op = "sft" -> LET g == P.self[e.o] IN IF Live(P, g) THEN SetS(P, e.s, g) ELSE P
    [] e.op \in {"assignobj", "cmp", "conc", "Start"} -> P
  IN CASE e.op = "Start" -> P' = P0
       [] e.op = "conc" -> P' = P /\ Shared(e)
       [] OTHER -> /\ P' = Q /\ Observed(Q, e)
                   /\ e.op = "fromweak" /\ P.wk[e.w] # 0 => e.ok = Live(P, P.wk[e.w])
                   /\ e.op = "sft" => e.ok = Live(P, P.self[e.o])
                   /\ e.op = "cmp" => e.eq = (Get(P, P.st[e.s]) = Get(P, P.st[e.t])) /\ e.ne = ~e.eq /\ ((P.st[e.s] = 0 /\ P.st[e.t] = 0) \/ e.own = (P.st[e.s] = P.st[e.t]))
                   /\ e.op \notin {"fromweak", "sft"} => e.ok
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
