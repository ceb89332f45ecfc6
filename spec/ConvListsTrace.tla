--------------------------- MODULE ConvListsTrace ---------------------------
(* C20.  v, v2: an array before and after; max: its bound or -1              *)
EXTENDS Convs, TraceBase
C == INSTANCE ConvLists
vars == <<l>>
TInit == l = 1
AllNot(t, x) == \A i \in 1..Len(x) : Acc(t, "string", x[i]) # "no"
AllOk(t, x) == \A i \in 1..Len(x) : Acc(t, "string", x[i]) = "ok"
AllGood(t, x, r) == Len(x) = Len(r) /\ \A i \in 1..Len(x) : Good(t, "string", x[i], r[i])
Room(e, n) == e.max = -1 \/ (IF e.fix THEN n = e.max ELSE n <= e.max)
(* x replaces everything *)
Replaced(e, x) == IF e.ok THEN AllNot(e.t, x) /\ AllGood(e.t, x, e.v2) /\ Room(e, Len(x)) /\ e.r = Len(x)
                  ELSE e.v2 = e.v /\ ~(AllOk(e.t, x) /\ Room(e, Len(x)))
(* fields of a structure in order: leaf f takes the next text *)
TakesOk(f, s) == IF f.k = "s" THEN Acc(f.t, "string", s) = "ok" ELSE f.k = "a" /\ AllOk(f.t, C!Items(s))
TakesNot(f, s) == IF f.k = "s" THEN Acc(f.t, "string", s) # "no" ELSE f.k = "a" /\ AllNot(f.t, C!Items(s))
TakesGood(f, s, r) == IF f.k = "s" THEN Good(f.t, "string", s, r) ELSE AllGood(f.t, C!Items(s), r)
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op = "toarr" ->
         LET n == C!Count(Len(e.v), e.off, e.len)  want == C!Store(e.to, e.toff, [i \in 1..n |-> <<>>], <<>>) IN
         /\ e.ok /\ e.r = n
         /\ \/ Len(e.to2) = Len(want)
            \/ (n = 0 /\ Len(e.to2) >= Len(want) /\ Len(e.to2) <= C!Max2(Len(e.to), e.toff))
         /\ \A i \in 1..Len(e.to2) : IF i > e.toff /\ i <= e.toff + n THEN Good("string", e.t, e.v[e.off + i - e.toff], e.to2[i])
                                     ELSE e.to2[i] = (IF i <= Len(e.to) THEN e.to[i] ELSE <<>>)
         /\ e.v2 = e.v
    [] e.op = "fromarr" ->
         LET n == C!Count(Len(e.from), e.foff, e.len)  x == SubSeq(e.from, e.foff + 1, e.foff + n) IN
         IF e.off = 0 /\ n >= Len(e.v) THEN Replaced(e, x)
         ELSE IF e.ok THEN e.r = n /\ AllNot(e.t, x) /\ n > 0 /\ AllGood(e.t, x, SubSeq(e.v2, e.off + 1, e.off + n)) /\ Len(e.v2) = C!Max2(Len(e.v), e.off + n)
                           /\ \A i \in 1..Len(e.v) : (i <= e.off \/ i > e.off + n) => e.v2[i] = e.v[i]
         ELSE e.v2 = e.v                                        \* a partial update may be refused
    [] e.op = "list" -> Replaced(e, C!Items(e.s))
    [] e.op = "back" -> /\ e.ok /\ e.r = Len(e.v) /\ e.v2 = e.v        \* written out and read back
                        /\ C!Items(e.s) = (IF Len(e.v) = 0 THEN <<>> ELSE e.x)
    [] e.op = "struct" ->
         LET F == e.f  n == Len(F)  have == IF e.start > Len(e.from) THEN 0 ELSE Len(e.from) - e.start  tx(i) == e.from[e.start + i]
             new(i) == i <= have /\ TakesNot(F[i], tx(i)) /\ TakesGood(F[i], tx(i), F[i].v2) IN
         IF e.ok THEN e.r = n /\ \A i \in 1..n : F[i].k # "x" /\ new(i)
         ELSE /\ ~(n <= have /\ \A i \in 1..n : TakesOk(F[i], tx(i)))
              /\ \A i \in 1..n : IF F[i].v2 = F[i].v THEN TRUE ELSE F[i].k # "x" /\ new(i)
    [] e.op \in {"get", "put"} -> IF e.ok THEN Acc(e.to, e.from, e.v) # "no" /\ Good(e.to, e.from, e.v, e.r) ELSE Acc(e.to, e.from, e.v) # "ok" /\ (e.op = "put" => e.r = e.was)
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
