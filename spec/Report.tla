------------------------------- MODULE Report -------------------------------
(* Failure reports: exceptions that know where they were thrown, and the     *)
(* helpers for unit tests: each test made gives exactly one numbered result. *)
EXTENDS PVTypes
NL10 == 10
(* texts *)
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
FirstAt(s, c) == LET I == {i \in 1..Len(s) : s[i] = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
UpTo(s, c) == LET i == FirstAt(s, c) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
(* lines as read one by one: a text ending in a line end has no line after it *)
RECURSIVE LinesOf(_)
LinesOf(s) == IF s = <<>> THEN <<>> ELSE LET i == FirstAt(s, NL10) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o LinesOf(SubSeq(s, i + 1, Len(s)))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
SDec(n) == IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE Digits(n)
ON == <<79,110,32,108,105,110,101,32>>
OF == <<32,111,102,32>>
Where(line, file) == ON \o Digits(line) \o OF \o file \o <<10>>
(* what is shown of an exception thrown there: the place, then the calls     *)
ShownOk(s, line, file) == IsPre(Where(line, file), s) /\ s[Len(s)] = 10
PrintedOk(s, line, file) == IsPre(Where(line, file), s) /\ s[Len(s)] = 10
(* the reason of the library's own exception *)
BaseWhat(msg, mixed, shown) == msg \o <<10>> \o (IF mixed THEN shown \o <<10>> ELSE <<>>)
-----------------------------------------------------------------------------
(* results: n is the number of tests so far *)
OK == <<111,107,32>>
NOT == <<110,111,116,32>>
DASH == <<32,45,32>>
Num2(n) == IF n < 10 THEN <<32>> \o Digits(n) ELSE Digits(n)
ResLine(pass, n, s) == (IF pass THEN <<>> ELSE NOT) \o OK \o Num2(n) \o DASH \o s
Note(s) == <<35, 32>> \o s
(* one test with a text of any number of lines; a text of no line still counts *)
Result(pass, n, s) == LET L == LinesOf(s) IN
  IF L = <<>> THEN <<ResLine(pass, n, <<>>)>> ELSE [i \in 1..Len(L) |-> IF i = 1 THEN ResLine(pass, n, L[1]) ELSE Note(L[i])]
Shown(s) == LET L == LinesOf(s) IN IF L = <<>> THEN <<Note(<<>>)>> ELSE [i \in 1..Len(L) |-> Note(L[i])]
(* texts of comparisons *)
LP == <<32, 40>>
EQ == <<41,32,61,61,32>>
NE == <<41,32,33,61,32>>
RP == <<41>>
CmpText(nl, l, op, nr, r, more) == nl \o LP \o l \o op \o nr \o LP \o r \o RP \o more
(* a field of a structure by its (dotted) name; a union stands for its choice *)
RECURSIVE At(_, _, _)
At(t, v, nm) == IF t.k # "st" THEN [ok |-> FALSE] ELSE
  LET d == FirstAt(nm, 46)  h == UpTo(nm, 46)  I == {i \in 1..Len(t.n) : t.n[i] = h} IN
  IF I = {} THEN [ok |-> FALSE]
  ELSE LET i == CHOOSE x \in I : TRUE IN IF d = 0 THEN [ok |-> TRUE, t |-> t.f[i], v |-> v.f[i]] ELSE At(t.f[i], v.f[i], SubSeq(nm, d + 1, Len(nm)))
Chosen(t, v) == IF IsVariant(t) THEN (IF v = Empty THEN [ok |-> FALSE] ELSE [ok |-> TRUE, t |-> v.t, v |-> v.v])
                ELSE IF v = Unsel THEN [ok |-> FALSE] ELSE [ok |-> TRUE, t |-> t.f[v.sel + 1], v |-> v.v]
IsOf(r, k, s) == r.ok /\ (r.ok => r.t.k = k /\ (r.t.k = k => r.t.t = s))
(* the value compared: of kind k and element type s *)
Compared(t, v, nm, k, s) == LET a == At(t, v, nm) IN
  IF IsOf(a, k, s) THEN [ok |-> TRUE, v |-> a.v]
  ELSE IF k = "s" /\ a.ok /\ (a.ok => a.t.k = "u") THEN LET b == Chosen(a.t, a.v) IN IF IsOf(b, k, s) THEN [ok |-> TRUE, v |-> b.v] ELSE [ok |-> FALSE]
  ELSE [ok |-> FALSE]
NULLTX == <<32,110,117,108,108,32,115,116,114,117,99,116,117,114,101,32,112,111,105,110,116,101,114>>
FIELDQ == <<32,102,105,101,108,100,32,39>>
TYPEQ == <<39,32,119,105,116,104,32,116,121,112,101,32>>
ABSENT == <<32,100,111,101,115,32,110,111,116,32,101,120,105,115,116>>
CAUGHT == <<99,97,116,99,104,32,101,120,112,101,99,116,101,100,32,101,120,99,101,112,116,105,111,110,58,32>>
UNEXP == <<117,110,101,120,112,101,99,116,101,100,32,115,117,99,99,101,115,115,32,111,102,32>>
=============================================================================
