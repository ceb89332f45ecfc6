----------------------------- MODULE ConvLists ------------------------------
(* Lists of values as text, and transfers between arrays and lists of text   *)
EXTENDS Naturals, Sequences
COMMA == 44
RECURSIVE Commas(_, _)      \* positions of the commas of s from i on
Commas(s, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i] = COMMA THEN <<i>> ELSE <<>>) \o Commas(s, i + 1)
Split(s) == LET c == Commas(s, 1)  n == Len(c)  from(k) == IF k = 1 THEN 1 ELSE c[k - 1] + 1  to(k) == IF k > n THEN Len(s) ELSE c[k] - 1 IN
  [k \in 1..n + 1 |-> SubSeq(s, from(k), to(k))]
Brackets(s) == Len(s) >= 2 /\ s[1] = 91 /\ s[Len(s)] = 93
Inner(s) == SubSeq(s, 2, Len(s) - 1)
(* the values a text lists; [] lists none *)
Items(s) == IF Brackets(s) THEN (IF Inner(s) = <<>> THEN <<>> ELSE Split(Inner(s))) ELSE Split(s)
RECURSIVE Join(_, _)
Join(x, i) == IF i > Len(x) THEN <<>> ELSE (IF i > 1 THEN <<COMMA>> ELSE <<>>) \o x[i] \o Join(x, i + 1)
List(x) == <<91>> \o Join(x, 1) \o <<93>>
(* how many of the len elements from position off are there *)
Count(have, off, len) == LET left == IF off > have THEN 0 ELSE have - off IN IF len < left THEN len ELSE left
Max2(a, b) == IF a > b THEN a ELSE b
(* x stored from position off on of the sequence s, gaps filled with z *)
Store(s, off, x, z) == [i \in 1..(IF x = <<>> THEN Len(s) ELSE Max2(Len(s), off + Len(x))) |-> IF i > off /\ i <= off + Len(x) THEN x[i - off] ELSE IF i <= Len(s) THEN s[i] ELSE z]
=============================================================================
