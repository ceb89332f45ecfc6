----------------------------- MODULE SubCopyMC ------------------------------
EXTENDS SubCopy, TLC
CONSTANTS N, M
VARIABLES to, from, a, ph
vars == <<to, from, a, ph>>
Src(k) == [i \in 1..k |-> 100 + i]
Init == to \in {[i \in 1..k |-> i] : k \in 0..N} /\ from \in {Src(k) : k \in 0..N} /\ ph = 0 /\ a = <<0, 1, 0, 1, 0>>
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED from /\ \E fo, off \in 0..M, fs, ts \in 1..M, n \in 0..M :
  /\ n <= MaxCount(Len(from), fo, fs) /\ a' = <<fo, fs, off, ts, n>>
  /\ to' = Sub(to, from, fo, fs, off, ts, n, 0)
Spec == Init /\ [][Next]_vars
(* read off directly: which positions are touched and by what *)
Touched(x) == {x[3] + k * x[4] + 1 : k \in 0..x[5] - 1}
Placed == [][LET x == a' IN
  /\ \A k \in 0..x[5] - 1 : to'[x[3] + k * x[4] + 1] = from[x[1] + k * x[2] + 1]
  /\ \A i \in 1..Len(to) : i \notin Touched(x) => to'[i] = to[i]
  /\ \A i \in 1..Len(to') : i > Len(to) /\ i \notin Touched(x) => to'[i] = 0
  /\ Len(to') >= Len(to) /\ (Len(to') > Len(to) => Len(to') \in Touched(x))]_vars
MaxOk == ph = 1 \/ \A fo \in 0..M, fs \in 1..M : LET m == MaxCount(Len(from), fo, fs) IN (m > 0 => fo + (m - 1) * fs < Len(from)) /\ fo + m * fs >= Len(from)
=============================================================================
