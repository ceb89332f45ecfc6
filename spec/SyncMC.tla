------------------------------- MODULE SyncMC --------------------------------
(* Model check of Sync.tla: signals and successful waits balance, mutexes are *)
(* held by one thread at a time and exactly as often as its guards say,       *)
(* bodies run only after a start.                                             *)
EXTENDS Sync
CONSTANTS Thr, MaxOps
VARIABLES S, n, sig, got, ran, mine
vars == <<S, n, sig, got, ran, mine>>
Init == S = New(<<FALSE>>) /\ n = 0 /\ sig = 0 /\ got = 0 /\ ran = {} /\ mine = [g \in {} |-> 0]
Same(vs) == UNCHANGED vs
Nxt(i) ==
  \/ S' = Signal(S, 1) /\ sig' = sig + (IF S.ev[1] THEN 0 ELSE 1) /\ Same(<<got, ran, mine>>)
  \/ CanWait(S, 1) /\ S' = Consume(S, 1) /\ got' = got + 1 /\ Same(<<sig, ran, mine>>)
  \/ \E m \in {1, 2} : LET g == Cardinality(DOMAIN S.gd) + 1 IN g <= 3 /\ CanLock(S, m, i) /\ S' = NewGuard(S, g, m, i) /\ mine' = (g :> i) @@ mine /\ Same(<<sig, got, ran>>)
  \/ \E g \in DOMAIN S.gd : mine[g] = i /\ Same(<<sig, got, ran, mine>>) /\
        \/ (S.gd[g].on \/ CanLock(S, S.gd[g].m, i)) /\ S' = GLock(S, g, i)
        \/ S' = GUnlock(S, g)
  \/ \E a \in BOOLEAN : LET t == Cardinality(DOMAIN S.th) + 1 IN t <= 2 /\ S' = NewThread(S, t, "x", a) /\ Same(<<sig, got, ran, mine>>)
  \/ \E t \in DOMAIN S.th : /\ Same(<<sig, got, mine>>)
        /\ \/ S.th[t].st = "new" /\ S' = Start(S, t) /\ Same(ran)
           \/ S.th[t].st = "go" /\ S' = [S EXCEPT !.th[t].st = "in"] /\ ran' = ran \cup {t}
           \/ S.th[t].st = "in" /\ S' = [S EXCEPT !.th[t].st = "done"] /\ Same(ran)
Next == n < MaxOps /\ n' = n + 1 /\ \E i \in Thr : Nxt(i)
Spec == Init /\ [][Next]_vars
Balance == sig - got = (IF S.ev[1] THEN 1 ELSE 0)
Ran == \A t \in DOMAIN S.th : (S.th[t].st \in {"in", "done"}) = (t \in ran)
OneInside == \A g, h \in DOMAIN S.gd : (S.gd[g].on /\ S.gd[h].on /\ S.gd[g].m = S.gd[h].m) => mine[g] = mine[h]
Inv == Exclusive(S) /\ Held(S) /\ Balance /\ Ran /\ OneInside
=============================================================================
