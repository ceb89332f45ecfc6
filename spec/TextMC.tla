------------------------------- MODULE TextMC -------------------------------
(* Escaping loses nothing; selecting only leaves lines out; highlighting     *)
(* only adds marks; the date of a day.                                       *)
EXTENDS Text
CONSTANTS MaxLen, Days, MaxHm
VARIABLES k, s, m, hm, d
vars == <<k, s, m, hm, d>>
Alpha == {97, 32, 34, 39, 92, 44, 10, 7, 120, 127, 128, 153, 169, 255, 0, 31}
Bytes == [k |-> "s", t |-> "string", max |-> 0]
IntT == [k |-> "s", t |-> "ubyte", max |-> 0]
St(id, n, f) == [k |-> "st", id |-> id, n |-> n, f |-> f]
NA == <<97>>
NB == <<98>>
T == St(<<83>>, <<NA, NB, <<99>>>>, <<St(ALARMT, <<SEV, MSG>>, <<[k |-> "s", t |-> "int", max |-> 0], Bytes>>), IntT,
        St(<<84>>, <<NA, NB>>, <<[k |-> "u", id |-> UnionId, n |-> <<NA>>, f |-> <<IntT>>], [k |-> "sta", e |-> St(<<85>>, <<NA>>, <<IntT>>)]>>)>>)
V == [f |-> <<[f |-> <<<<0, 0, 0, 2>>, <<120>>>>], <<7>>, [f |-> <<[sel |-> 0, v |-> <<3>>], <<[f |-> <<<<1>>>>], Null>>>>]>>]
O == 0..(NF(T) - 1)
RECURSIVE Lines(_), Strip(_, _), SubSq(_, _)
Lines(x) == IF x = <<>> THEN <<>> ELSE LET a == Upto(x, 10) IN <<a>> \o Lines(SubSeq(x, Len(a) + 2, Len(x)))
Strip(x, i) == IF i > Len(x) THEN <<>> ELSE IF x[i] = 27 THEN Strip(x, i + 3 + (IF x[i + 2] \in {48, 49} THEN 1 ELSE 0)) ELSE <<x[i]>> \o Strip(x, i + 1)
SubSq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF a[1] = b[1] THEN SubSq(Tail(a), Tail(b)) ELSE SubSq(a, Tail(b))
RECURSIVE Unquote(_, _)
Unquote(x, i) == IF i > Len(x) THEN <<>> ELSE IF x[i] = 34 THEN <<34>> \o Unquote(x, i + 2) ELSE IF x[i] = 92 THEN LET n == IF x[i + 1] = 120 THEN 3 ELSE 1 IN SubSeq(x, i, i + n) \o Unquote(x, i + n + 1) ELSE <<x[i]>> \o Unquote(x, i + 1)
EscOk == /\ Unesc(EscT(s, FALSE), 1) = s
         /\ LET q == MaybeQ(s) IN IF q = s THEN \A i \in 1..Len(s) : ~Special(s[i]) ELSE q = Quoted(EscT(s, FALSE))
         /\ LET c == Csv(s)  b == c # EscT(s, TRUE)  u == IF b THEN SubSeq(c, 2, Len(c) - 1) ELSE c IN Unesc(Unquote(u, 1), 1) = s
         /\ \A i \in 1..Len(MaybeQ(s)) : Plain(MaybeQ(s)[i])
G0 == [x \in {} |-> <<>>]
R(mm, hh) == RawText(T, V, 1, mm, hh, G0)
RawOk == LET x == R(m, hm) IN
  /\ Strip(x, 1) = R(m, {})
  /\ SubSq(Lines(R(m, {})), Lines(R({0}, {})))
  /\ (m = {} => x = <<>>)
  /\ \A o \in O \ m : SubSq(Lines(R(m, {})), Lines(R(m \cup {o}, {})))
(* the calendar, counted day by day *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
ML(y, n) == CASE n = 2 -> IF Leap(y) THEN 29 ELSE 28 [] n \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
NextDay(c) == IF c.d < ML(c.y, c.m) THEN [c EXCEPT !.d = @ + 1] ELSE IF c.m < 12 THEN [c EXCEPT !.d = 1, !.m = @ + 1] ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
DayOk == Civil(d) = m
Init == \/ k = "esc" /\ s = <<>> /\ m = {} /\ hm = {} /\ d = 0
        \/ k = "raw" /\ s = <<>> /\ m = {} /\ hm = {} /\ d = 0
        \/ k = "day" /\ s = <<>> /\ m = [y |-> 1970, m |-> 1, d |-> 1] /\ hm = {} /\ d = 0
Next == CASE k = "esc" -> Len(s) < MaxLen /\ (\E c \in Alpha : s' = Append(s, c)) /\ UNCHANGED <<k, m, hm, d>>
          [] k = "raw" -> (\E o \in O : (m' = m \cup {o} /\ hm' = hm) \/ (Cardinality(hm \cup {o}) <= MaxHm /\ hm' = hm \cup {o} /\ m' = m)) /\ UNCHANGED <<k, s, d>>
          [] OTHER -> d < Days /\ d' = d + 1 /\ m' = NextDay(m) /\ UNCHANGED <<k, s, hm>>
Inv == CASE k = "esc" -> EscOk [] k = "raw" -> RawOk [] OTHER -> DayOk
Spec == Init /\ [][Next]_vars
=============================================================================
