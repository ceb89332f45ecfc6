------------------------------- MODULE JsonMC -------------------------------
(* The theory of JSON documents used for C25 and C26, checked in itself:     *)
(* every text over a small alphabet; and every value of a type is printed    *)
(* under every mask and read into every other value.                         *)
EXTENDS JsonIn
CONSTANTS Len1, Alph, As, Ds
VARIABLES s, k
vars == <<s, k>>
RECURSIVE SerStr(_, _), Ser(_), Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<44>> \o Join(Tail(q))
SerStr(x, i) == IF i > Len(x) THEN <<>> ELSE (IF x[i] \in {34, 92} THEN <<92, x[i]>> ELSE IF x[i] < 32 THEN <<92, 117, 48, 48, 48 + x[i] \div 16, IF x[i] % 16 < 10 THEN 48 + (x[i] % 16) ELSE 87 + (x[i] % 16)>> ELSE <<x[i]>>) \o SerStr(x, i + 1)
Quot(x) == <<34>> \o SerStr(x, 1) \o <<34>>
Ser(j) == CASE j.j = "o" -> <<123>> \o Join([i \in 1..Len(j.n) |-> Quot(j.n[i]) \o <<58>> \o Ser(j.f[i])]) \o <<125>>
  [] j.j = "a" -> <<91>> \o Join([i \in 1..Len(j.f) |-> Ser(j.f[i])]) \o <<93>>
  [] j.j = "int" -> DecT10(j.z) [] j.j = "str" -> Quot(j.s) [] j.j = "bool" -> (IF j.b THEN TRUET ELSE FALSET) [] OTHER -> NULLT
RECURSIVE Bare(_)       \* without positions
Bare(j) == CASE j.j \in {"o", "a"} -> [j EXCEPT !.f = [i \in 1..Len(j.f) |-> Bare(j.f[i])]]
  [] j.j \in {"int", "flt"} -> [x \in DOMAIN j \ {"i"} |-> j[x]] [] OTHER -> j
RECURSIVE HasFlt(_)
HasFlt(j) == CASE j.j \in {"o", "a"} -> \E i \in 1..Len(j.f) : HasFlt(j.f[i]) [] j.j \in {"flt", "x", "nan", "inf"} -> TRUE [] OTHER -> FALSE
Has2(q, c) == \E i \in 1..Len(q) : q[i] = c
Texts == s # <<-1>> =>
  LET d == Doc(s) IN
  /\ d.ok /\ ~d.x =>
       /\ (s[1] \in {123, 91, 34}) => \A n \in 0..(Len(s) - 1) : ~Has2(SubSeq(s, n + 1, Len(s)), 47) /\ (\E i \in (n + 1)..Len(s) : s[i] \notin {32, 10}) => ~Doc(SubSeq(s, 1, n)).ok      \* truncated ones are bad
       /\ ~HasFlt(d.j) => LET r == Doc(Ser(d.j)) IN r.ok /\ ~r.x /\ Bare(r.j) = Bare(d.j) /\ Squeeze(Ser(d.j)) = Ser(d.j)
       /\ ~Has2(s, 47) => LET r == Doc(Squeeze(s)) IN r.ok /\ ~r.x /\ Bare(r.j) = Bare(d.j)
       /\ LET r == Doc(<<10>> \o s \o <<32, 10>>) IN r.ok /\ Bare(r.j) = Bare(d.j)
       /\ Len(s) > 0 /\ ~Has2(s, 47) => ~Doc(s \o <<44>>).ok /\ ~Doc(s \o <<125>>).ok /\ ~Doc(s \o <<32, 49>>).ok         \* trailing junk
-----------------------------------------------------------------------------
Sc(t) == [k |-> "s", t |-> t, max |-> 0]
St(n, f) == [k |-> "st", id |-> StructureId, n |-> n, f |-> f]
Ty == St(<<<<97>>, <<98>>, <<99>>, <<100>>>>, <<Sc("byte"), [k |-> "sa", t |-> "string", b |-> "b", n |-> 1], St(<<<<97>>, <<101>>>>, <<Sc("boolean"), Sc("ubyte")>>), [k |-> "sta", e |-> St(<<<<97>>>>, <<Sc("byte")>>)]>>)
Vals == {[f |-> <<<<a>>, b, [f |-> <<<<c>>, <<e>>>>], [i \in 1..d |-> [f |-> <<<<i>>>>]]>>] : a \in As, b \in {<<>>, <<<<34, 92, 1>>>>}, c \in {0, 1}, e \in {7, 200}, d \in Ds}
RECURSIVE Pr(_, _, _, _, _)
PrS(t, v) == IF t = "string" THEN Quot(v) ELSE IF t = "boolean" THEN (IF v = <<0>> THEN FALSET ELSE TRUET) ELSE DecT10(IVal(t, v))
Pr(t, v, base, m, all) ==
  CASE t.k = "s" -> PrS(t.t, v)
    [] t.k = "sa" -> <<91>> \o Join([i \in 1..Len(v) |-> PrS(t.t, v[i])]) \o <<93>>
    [] t.k = "sta" -> <<91>> \o Join([i \in 1..Len(v) |-> Pr(t.e, v[i], 0, ALL, TRUE)]) \o <<93>>
    [] OTHER -> LET a == all \/ base \in m  mem(i) == IF a \/ Shown(t.f[i], OffsetOf(t, base, i), m) THEN <<Quot(t.n[i]) \o <<58>> \o Pr(t.f[i], v.f[i], OffsetOf(t, base, i), m, a)>> ELSE <<>> IN
         <<123>> \o Join(Cat([i \in 1..Len(t.f) |-> mem(i)])) \o <<125>>
RECURSIVE Merge(_, _, _, _, _, _)       \* v where shown, otherwise w
Merge(t, v, w, base, m, all) == LET a == all \/ base \in m IN
  IF t.k # "st" THEN (IF a THEN v ELSE w) ELSE [f |-> [i \in 1..Len(t.f) |-> Merge(t.f[i], v.f[i], w.f[i], OffsetOf(t, base, i), m, a)]]
LSel(m) == {o \in Leaves(Ty, 0) : o \in m \/ (\E i \in 1..Len(Ty.f) : OffsetOf(Ty, 0, i) \in m /\ o \in Range(OffsetOf(Ty, 0, i), Ty.f[i])) \/ 0 \in m}
Prints == k.st = 2 =>
  LET x == Pr(Ty, k.v, 0, k.m, FALSE)  d == Doc(x)  D == <<>>  new == Merge(Ty, k.v, k.w, 0, k.m, FALSE) IN
  /\ d.ok /\ ~d.x /\ Den(Ty, k.v, d.j, 0, k.m, FALSE)
  /\ May(Ty, d.j, D) = "ok" /\ Now(Ty, d.j, D, k.w, new)
  /\ AssignedTo(Assigns(Ty, 0, d.j)) = LSel(k.m)
  /\ (k.v # new => ~Now(Ty, d.j, D, k.w, k.v)) /\ (k.w # new => ~Now(Ty, d.j, D, k.w, k.w))
  /\ New(d.j, D).st \in {"ok", "no", "any"}
Init == s = <<>> /\ k = [st |-> 0]
Grow == /\ s # <<-1>> /\ Len(s) < Len1 /\ \E c \in Alph : s' = Append(s, c) /\ k' = k
PickV == /\ s = <<>> /\ \E v \in Vals : k' = [st |-> 1, v |-> v, w |-> v, m |-> {}] /\ s' = <<-1>>
PickW == /\ k.st = 1 /\ \E w \in Vals : k' = [k EXCEPT !.st = 2, !.w = w, !.m = {0}] /\ s' = s
PickM == /\ k.st = 2 /\ (IF k.st = 2 THEN k.m = {0} ELSE FALSE) /\ \E m \in SUBSET (0..(NF(Ty) - 1)) : m \notin {{}, {0}} /\ k' = [k EXCEPT !.m = m] /\ s' = s
Next == Grow \/ PickV \/ PickW \/ PickM
Spec == Init /\ [][Next]_vars
=============================================================================
