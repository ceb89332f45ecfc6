------------------------------ MODULE RefTrack ------------------------------
(* Registry of reference counters (reftrack.h), snapshots and their          *)
(* differences, and the periodic monitor.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
(* reg : name -> counter; val : counter -> value; sn : slot -> snapshot      *)
(* A snapshot maps names to [c |-> current, d |-> delta].                    *)
Set1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del1(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoFun == [x \in {} |-> 0]
Register(R, n, k) == [R EXCEPT !.reg = Set1(@, n, k)]
Unregister(R, n, k) == IF n \in DOMAIN R.reg /\ R.reg[n] = k THEN [R EXCEPT !.reg = Del1(@, n)] ELSE R
SetCounter(R, k, v) == [R EXCEPT !.val = Set1(@, k, v)]
Read(R, n) == IF n \in DOMAIN R.reg THEN R.val[R.reg[n]] ELSE 0
Snapshot(R) == [n \in DOMAIN R.reg |-> [c |-> Read(R, n), d |-> 0]]
Cnt(s, n) == IF n \in DOMAIN s THEN s[n] ELSE [c |-> 0, d |-> 0]
Minus(a, b) == [n \in DOMAIN a \cup DOMAIN b |-> [c |-> Cnt(a, n).c, d |-> Cnt(a, n).c - Cnt(b, n).c]]
(* algebra that any reporting tool relies on, checked by TLC (RefTrackMC)    *)
SelfZero(a) == \A n \in DOMAIN a : Minus(a, a)[n].d = 0
Chain(a, b, c) == \A n \in DOMAIN a \cup DOMAIN b \cup DOMAIN c : Cnt(Minus(a, c), n).d = Cnt(Minus(a, b), n).d + Cnt(Minus(b, c), n).d
Anti(a, b) == \A n \in DOMAIN a \cup DOMAIN b : Minus(a, b)[n].d = -(Minus(b, a)[n].d)
=============================================================================
