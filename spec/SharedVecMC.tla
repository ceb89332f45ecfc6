---------------------------- MODULE SharedVecMC -----------------------------
EXTENDS SharedVec, TLC
CONSTANTS H, Vals, MaxN, MaxM
VARIABLES V, act
vars == <<V, act>>
Seen == V   \* act only names the handles of the last step
(* the lowest number of a storage not in use *)
nst == CHOOSE s \in 1..Cardinality(H)+1 : s \notin DOMAIN V.mem /\ \A q \in 1..s-1 : q \in DOMAIN V.mem
Init == V = [V0 EXCEPT !.h = [h \in H |-> NullH(FALSE, FALSE)]] /\ act = {}
Seqs(n) == UNION {[1..k -> Vals] : k \in 0..n}
Next ==
  \/ \E h \in H, c \in Seqs(MaxN) : V' = Fresh(V, h, nst, c, Len(c), FALSE, FALSE) /\ act' = {h}
  \/ \E h, g \in H : h # g /\ V' = Share(V, h, g) /\ act' = {h}
  \/ \E h, g \in H : h # g /\ V' = Move(V, h, g) /\ act' = {h, g}
  \/ \E h \in H, o \in 0..MaxN, k \in 0..MaxN : V' = Slice(V, h, o, k) /\ act' = {h}
  \/ \E h \in H, i \in 1..MaxN, v \in Vals : ~V.h[h].ro /\ i <= V.h[h].n /\ V' = Write(V, h, i, v) /\ act' = {h} \cup {g \in H : Shares(V, h, g)}
  \/ \E h \in H, v \in Vals : ~V.h[h].ro /\ V.h[h].n < MaxN /\ V' = Own(V, h, nst, Append(View(V, h), v), V.h[h].n + 1) /\ act' = {h}
  \/ \E h, g \in H : h # g /\ ~V.h[g].ro /\ CanFreeze(V, g) /\ V' = Freeze(V, h, g) /\ act' = {h, g}
  \/ \E h, g \in H : h # g /\ V.h[g].ro /\ V' = Thaw(V, h, g, nst, V.h[g].n) /\ act' = {h, g}
Spec == Init /\ [][Next]_vars
Few == Cardinality(DOMAIN V.mem) <= MaxM
Windows == \A h \in H : LET x == V.h[h] IN x.n <= x.cap /\ (x.st # 0 => x.st \in DOMAIN V.mem /\ x.off + x.n <= Len(V.mem[x.st]))
(* nobody can write what a read-only handle shows *)
Separated == \A h, g \in H : Shares(V, h, g) => V.h[h].ro = V.h[g].ro
(* only the handles an operation names (or deliberately shares with) change *)
Isolated == [][\A h \in H \ act' : View(V', h) = View(V, h) /\ V'.h[h].ro = V.h[h].ro]_vars
Frozen == [][\A h \in H : V.h[h].ro /\ V'.h[h] = V.h[h] => View(V', h) = View(V, h)]_vars
=============================================================================
