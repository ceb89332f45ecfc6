---------------------------- MODULE ConvListsMC -----------------------------
EXTENDS ConvLists, TLC
CONSTANTS Chars, N, K
VARIABLES s, x, p
vars == <<s, x, p>>
Seqs(A, n) == UNION {[1..k -> A] : k \in 0..n}
Init == s \in Seqs(Chars, N) /\ x = <<>> /\ p = <<0, 0, 0>>
Next == p[1] = 0 /\ UNCHANGED s /\ x' \in Seqs(Seqs(Chars \ {44}, 1), K) /\ \E off \in 0..K + 1, n \in 0..K + 1 : p' = <<1, off, n>>
Spec == Init /\ [][Next]_vars
(* nothing is lost and no item holds a comma *)
SplitOk == /\ Join(Split(s), 1) = s
           /\ \A k \in 1..Len(Split(s)) : \A i \in 1..Len(Split(s)[k]) : Split(s)[k][i] # 44
           /\ Items(<<91>> \o s \o <<93>>) = IF s = <<>> THEN <<>> ELSE Split(s)
Back == Items(List(x)) = IF x = <<<<>>>> THEN <<>> ELSE x
Trans == LET off == p[2]  n == Count(Len(s), off, p[3])  y == SubSeq(s, off + 1, off + n)  t == Store(x, off, y, 0) IN
  /\ n <= p[3] /\ n <= Len(s) /\ (p[3] + off <= Len(s) => n = p[3]) /\ Len(y) = n
  /\ Len(t) >= Len(x) /\ SubSeq(t, off + 1, off + n) = y
  /\ \A i \in 1..Len(x) : (i <= off \/ i > off + n) => t[i] = x[i]
  /\ (n = 0 => t = x)
=============================================================================
