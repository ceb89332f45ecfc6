----------------------------- MODULE RefTrackMC -----------------------------
EXTENDS RefTrack, TLC
CONSTANTS Names, Counters, MaxV, Slots
VARIABLES R, sn, hist
vars == <<R, sn, hist>>
Init == R = [reg |-> NoFun, val |-> [k \in Counters |-> 0]] /\ sn = [i \in Slots |-> NoFun] /\ hist = NoFun
Next == \/ \E n \in Names, k \in Counters : (R' = Register(R, n, k) \/ R' = Unregister(R, n, k)) /\ UNCHANGED <<sn, hist>>
        \/ \E k \in Counters, d \in {-1, 1} : R.val[k] + d \in 0..MaxV /\ R' = SetCounter(R, k, R.val[k] + d) /\ UNCHANGED <<sn, hist>>
        \/ \E i \in Slots : sn' = [sn EXCEPT ![i] = Snapshot(R)] /\ UNCHANGED R /\ hist' = R.reg
(* the last snapshot is faithful, differences are exact *)
Faithful == \A i \in Slots : SelfZero(sn[i]) /\ \A n \in DOMAIN sn[i] : sn[i][n].d = 0 /\ sn[i][n].c \in 0..MaxV
Algebra == \A i, j \in Slots : Anti(sn[i], sn[j]) /\ \A k \in Slots : Chain(sn[i], sn[j], sn[k])
Current == \A n \in DOMAIN R.reg : Snapshot(R)[n].c = Read(R, n)
(* removing with a counter that is not the registered one changes nothing *)
Guarded == [][\A n \in DOMAIN R.reg : n \notin DOMAIN R'.reg => R'.val = R.val /\ R'.reg = Del1(R.reg, n)]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
