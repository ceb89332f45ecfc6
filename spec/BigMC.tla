------------------------------- MODULE BigMC --------------------------------
(* The exact arithmetic agrees with TLC's on small numbers, and the laws of  *)
(* the time-stamp representation: parts are unique and ordered lexically.    *)
EXTENDS TimeStamps, FiniteSets, TLC
CONSTANT M
VARIABLES a, b, ph
Edge == {0, 1, 2, 127, 128, 129, 255, 256, 257, 511, 512, 65535, 65536, 65537, 8388607, 8388608, 16777215, 16777216}
Ints == {-x : x \in Edge} \cup Edge \cup (-M..M)
Init == ph = 0 /\ a \in Ints /\ b = 0
Next == ph = 0 /\ ph' = 1 /\ a' = a /\ b' \in Ints
Spec == Init /\ [][Next]_<<a, b, ph>>
Sgn(n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1
Cut(n) == Sgn(n) * ((IF n < 0 THEN -n ELSE n) \div 8)
Small(n) == -40000 < n /\ n < 40000
Arith == ph = 1 =>
  /\ ZAdd(ZOf(a), ZOf(b)) = ZOf(a + b) /\ ZSub(ZOf(a), ZOf(b)) = ZOf(a - b)
  /\ ZCmp(ZOf(a), ZOf(b)) = Sgn(a - b)
  /\ Small(a) /\ Small(b) => ZMul(ZOf(a), ZOf(b)) = ZOf(a * b)
  /\ b > 0 /\ b < 100000 => ZFloorDiv(ZOf(a), b) = ZOf(a \div b)
  /\ ZMul(ZOf(a), ZOf(b)) = ZMul(ZOf(b), ZOf(a))
  /\ ZMul(ZAdd(ZOf(a), ZOf(1)), ZOf(b)) = ZAdd(ZMul(ZOf(a), ZOf(b)), ZOf(b))
Repr == ph = 0 =>
  /\ SVal(Twos(ZOf(a), 4)) = ZOf(a) /\ SVal(Twos(ZOf(a), 8)) = ZOf(a) /\ Len(Twos(ZOf(a), 4)) = 4
  /\ a >= 0 => UVal(Twos(ZOf(a), 4)) = ZOf(a)
  /\ \A k \in {0, 1, 7, 8, 9} : NShr(NShl(ZOf(a).m, k), k) = ZOf(a).m /\ NBits(NShl(NOf(1), k)) = k + 1
  /\ DTrunc([s |-> IF a < 0 THEN -1 ELSE 1, m |-> ZOf(a).m, e |-> -3]) = ZOf(Cut(a))
  /\ DInt([s |-> 1, m |-> ZAbs(ZOf(a)).m, e |-> -3]) = (a % 8 = 0)
(* 1.5, -2.5, the smallest subnormal, infinities and NaN as IEEE doubles and floats *)
Samples ==
  /\ DCmp(Flt(<<63, 248, 0, 0, 0, 0, 0, 0>>), [s |-> 1, m |-> <<3>>, e |-> -1]) = 0
  /\ DCmp(Flt(<<192, 4, 0, 0, 0, 0, 0, 0>>), [s |-> -1, m |-> <<5>>, e |-> -1]) = 0
  /\ Flt(<<0, 0, 0, 0, 0, 0, 0, 1>>) = [k |-> "fin", s |-> 1, m |-> <<1>>, e |-> -1074]
  /\ DCmp(Flt(<<63, 192, 0, 0>>), [s |-> 1, m |-> <<3>>, e |-> -1]) = 0
  /\ Flt(<<0, 0, 0, 1>>) = [k |-> "fin", s |-> 1, m |-> <<1>>, e |-> -149]
  /\ Flt(<<255, 128, 0, 0>>) = [k |-> "inf", s |-> -1] /\ Flt(<<127, 192, 0, 0>>).k = "nan"
  /\ Flt(<<127, 240, 0, 0, 0, 0, 0, 0>>) = [k |-> "inf", s |-> 1] /\ Flt(<<127, 240, 0, 0, 0, 0, 0, 1>>).k = "nan"
(* two normalized stamps: the parts determine the time and order like it *)
NS == {0, 1, 999999999, 500000000}
Stamps == ph = 1 => \A x, y \in NS :
  LET s == NanoOf(ZOf(a), ZOf(x))  t == NanoOf(ZOf(b), ZOf(y)) IN
  /\ (s = t) = (a = b /\ x = y)
  /\ ZLt(s, t) = (a < b \/ (a = b /\ x < y))
  /\ ZFloorDiv(s, 1000000) = ZAdd(ZMul(ZOf(a), ZOf(1000)), ZOf(x \div 1000000))
=============================================================================
