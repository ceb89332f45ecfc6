------------------------------ MODULE ReportMC ------------------------------
(* Whatever the texts, a run of tests gives as many results as tests, in     *)
(* order, with the right verdicts, and nothing of a text is lost.            *)
EXTENDS Report
CONSTANTS MaxLen, MaxTests
VARIABLES n, out, made, texts
vars == <<n, out, made, texts>>
Alpha == {97, 10, 35}
Texts == UNION {[1..k -> Alpha] : k \in 0..MaxLen}
Init == n = 0 /\ out = <<>> /\ made = <<>> /\ texts = <<>>
Test == /\ n < MaxTests /\ \E s \in Texts, p \in BOOLEAN :
          /\ n' = n + 1 /\ out' = out \o Result(p, n + 1, s) /\ made' = Append(made, p) /\ texts' = Append(texts, s)
Next == Test
Spec == Init /\ [][Next]_vars
IsRes(x) == IsPre(OK, x) \/ IsPre(NOT \o OK, x)
Results == SelectSeq(out, IsRes)
RECURSIVE Body(_)
Body(L) == IF L = <<>> THEN <<>> ELSE
  (LET x == L[1] IN IF IsPre(<<35, 32>>, x) THEN <<SubSeq(x, 3, Len(x))>> ELSE <<SubSeq(x, FirstAt(x, 45) + 2, Len(x))>>) \o Body(SubSeq(L, 2, Len(L)))
RECURSIVE Flat(_)
Flat(T) == IF T = <<>> THEN <<>> ELSE (LET L == LinesOf(T[1]) IN IF L = <<>> THEN <<<<>>>> ELSE L) \o Flat(SubSeq(T, 2, Len(T)))
Inv == /\ Len(Results) = n
       /\ \A i \in 1..n : made[i] = ~IsPre(NOT, Results[i]) /\ IsPre((IF made[i] THEN <<>> ELSE NOT) \o OK \o Num2(i), Results[i])
       /\ Body(out) = Flat(texts)
=============================================================================
