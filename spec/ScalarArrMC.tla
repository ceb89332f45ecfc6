---------------------------- MODULE ScalarArrMC -----------------------------
EXTENDS ScalarArr, TLC
CONSTANTS Vals, MaxN, MaxCap
VARIABLES A, op, vw
vars == <<A, op, vw>>
Seen == <<A, vw>>
Seqs(k) == [1..k -> Vals]
AllSeqs == UNION {Seqs(k) : k \in 0..MaxN}
Zero == CHOOSE x \in Vals : TRUE
Init == A \in {Arr("v", 0, <<>>, 0), Arr("b", 2, <<>>, 0), Arr("f", 2, [i \in 1..2 |-> Zero], 2)} /\ op = [o |-> "init", ok |-> TRUE] /\ vw = <<>>
Do(R, o) == A' = R.a /\ CapOk(R.a) /\ op' = [o |-> o, ok |-> R.ok] /\ UNCHANGED vw
Next ==
  \/ \E k \in 0..MaxN, c \in 0..MaxCap : \E t \in Seqs(IF k > Len(A.v) THEN k - Len(A.v) ELSE 0) : Do(SetLength(A, k, t, c), "len")
  \/ \E k, c \in 0..MaxCap : (c >= k) /\ Do(SetCapacity(A, k, c), "cap")
  \/ \E m \in BOOLEAN : Do(SetCapMutable(A, m), "cm")
  \/ Do(SetImmutable(A), "im")
  \/ \E v \in AllSeqs, c \in 0..MaxCap : Do(CopyFrom(A, v, c), "copy")
  \/ \E v \in AllSeqs, c \in 0..MaxCap : LenOk(A, Len(v)) /\ Do(Swap(A, v, c), "swap")
  \/ vw' = A.v /\ op' = [o |-> "view", ok |-> TRUE] /\ UNCHANGED A
Spec == Init /\ [][Next]_vars
Discipline == LenOk(A, Len(A.v)) /\ CapOk(A)
Refused == [][~op'.ok => A' = A]_vars
Immutable == [][A.im => A' = A]_vars
CapFrozen == [][(~CapMutable(A) /\ op'.o = "cap") => A' = A /\ ~op'.ok]_vars
CapKeeps == [][op'.o \in {"cap", "cm"} => A'.v = A.v]_vars
Prefix == [][op'.o = "len" => \A i \in 1..Len(A.v) : i <= Len(A'.v) => A'.v[i] = A.v[i]]_vars
=============================================================================
