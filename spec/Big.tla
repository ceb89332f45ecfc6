-------------------------------- MODULE Big ---------------------------------
(* Exact arithmetic for machine numbers, whose ranges exceed TLC's integers: *)
(* naturals are sequences of base-256 limbs, least significant first, with   *)
(* no leading zero limb (zero is the empty sequence); integers are records   *)
(* [s, m], s in {-1, 0, 1}; dyadic numbers [s, m, e] are s * m * 2^e.        *)
EXTENDS Integers, Sequences
RECURSIVE NNorm(_), NAddC(_, _, _, _, _), NSubC(_, _, _, _, _), NMulC(_, _, _, _, _), NMulR(_, _, _), NCmpI(_, _, _), NDivC(_, _, _, _, _)
NNorm(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN NNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y
NAddC(a, b, i, c, acc) ==
  IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == At(a, i) + At(b, i) + c IN NAddC(a, b, i + 1, t \div 256, Append(acc, t % 256))
NAdd(a, b) == NAddC(a, b, 1, 0, <<>>)
NSubC(a, b, i, c, acc) ==           \* a >= b
  IF i > Len(a) THEN NNorm(acc)
  ELSE LET t == a[i] - At(b, i) - c IN NSubC(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, Append(acc, t % 256))
NSub(a, b) == NSubC(a, b, 1, 0, <<>>)
NCmpI(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpI(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpI(a, b, Len(a))
NMulC(a, k, i, c, acc) ==           \* by a small number k < 2^20
  IF i > Len(a) THEN (IF c = 0 THEN acc ELSE NMulC(a, k, i, c \div 256, Append(acc, c % 256)))
  ELSE LET t == a[i] * k + c IN NMulC(a, k, i + 1, t \div 256, Append(acc, t % 256))
NMulS(a, k) == IF k = 0 THEN <<>> ELSE NMulC(a, k, 1, 0, <<>>)
ZeroL(n) == [i \in 1..n |-> 0]
NMulR(a, b, i) == IF i > Len(b) THEN <<>> ELSE NAdd(NNorm(ZeroL(i - 1) \o NMulS(a, b[i])), NMulR(a, b, i + 1))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NMulR(a, b, 1)
NDivC(a, k, i, r, acc) ==           \* by a small number
  IF i = 0 THEN [q |-> NNorm(acc), r |-> r]
  ELSE LET t == r * 256 + a[i] IN NDivC(a, k, i - 1, t % k, <<t \div k>> \o acc)
NDivS(a, k) == NDivC(a, k, Len(a), 0, <<>>)
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NOf(n \div 256)
P2(k) == <<1, 2, 4, 8, 16, 32, 64, 128>>[k + 1]
NShl(a, k) == IF a = <<>> THEN a ELSE ZeroL(k \div 8) \o NMulS(a, P2(k % 8))
(* quotient and remainder of division by 2^k *)
NShr(a, k) == IF k \div 8 >= Len(a) THEN <<>> ELSE NDivS(SubSeq(a, (k \div 8) + 1, Len(a)), P2(k % 8)).q
NBits(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + (CHOOSE n \in 1..8 : a[Len(a)] < 2 * P2(n - 1) /\ a[Len(a)] >= P2(n - 1))
-----------------------------------------------------------------------------
ZZero == [s |-> 0, m |-> <<>>]
Z(s, m) == IF m = <<>> THEN ZZero ELSE [s |-> s, m |-> m]
ZOf(n) == IF n < 0 THEN Z(-1, NOf(-n)) ELSE Z(1, NOf(n))
ZNeg(a) == [a EXCEPT !.s = -@]
ZAdd(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN Z(a.s, NAdd(a.m, b.m))
  ELSE LET c == NCmp(a.m, b.m) IN IF c = 0 THEN ZZero ELSE IF c > 0 THEN Z(a.s, NSub(a.m, b.m)) ELSE Z(b.s, NSub(b.m, a.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a.s * b.s, NMul(a.m, b.m))
ZCmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE IF a.s < 0 THEN NCmp(b.m, a.m) ELSE NCmp(a.m, b.m)
ZLe(a, b) == ZCmp(a, b) <= 0
ZLt(a, b) == ZCmp(a, b) < 0
ZAbs(a) == [a EXCEPT !.s = IF @ = 0 THEN 0 ELSE 1]
ZShl(a, k) == Z(a.s, NShl(a.m, k))
ZMin(a, b) == IF ZLe(a, b) THEN a ELSE b
RECURSIVE ZPow2(_)
ZPow2(k) == ZShl(ZOf(1), k)
(* floor division by a small positive number *)
ZFloorDiv(a, k) == LET d == NDivS(a.m, k) IN
  IF a.s >= 0 THEN Z(1, d.q) ELSE IF d.r = 0 THEN Z(-1, d.q) ELSE Z(-1, NAdd(d.q, NOf(1)))
-----------------------------------------------------------------------------
(* big-endian machine representations (as in PVTypes) *)
RevS(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
UVal(b) == Z(1, NNorm(RevS(b)))
SVal(b) == IF b[1] < 128 THEN UVal(b) ELSE ZSub(UVal(b), ZPow2(8 * Len(b)))
(* the low n bytes of an integer in two's complement, big-endian *)
Pad0(m, n) == [i \in 1..n |-> At(m, i)]
Twos(a, n) ==
  LET low == NNorm(Pad0(a.m, n)) IN
  RevS(Pad0(IF a.s >= 0 \/ low = <<>> THEN low ELSE NSub(NShl(NOf(1), 8 * n), low), n))
(* IEEE numbers: [k |-> "nan"], [k |-> "inf", s], or [k |-> "fin", s, m, e]; s = -1 or 1 (zeros are signed) *)
Flt(b) ==
  LET w == Len(b)  sg == IF b[1] >= 128 THEN -1 ELSE 1
      x == IF w = 8 THEN (b[1] % 128) * 16 + b[2] \div 16 ELSE (b[1] % 128) * 2 + b[2] \div 128
      xm == IF w = 8 THEN 2047 ELSE 255
      fr == NNorm(RevS(<<IF w = 8 THEN b[2] % 16 ELSE b[2] % 128>> \o SubSeq(b, 3, w)))
      fb == IF w = 8 THEN 52 ELSE 23
      bias == IF w = 8 THEN 1075 ELSE 150 IN
  IF x = xm THEN (IF fr = <<>> THEN [k |-> "inf", s |-> sg] ELSE [k |-> "nan"])
  ELSE IF x = 0 THEN [k |-> "fin", s |-> sg, m |-> fr, e |-> 1 - bias]
  ELSE [k |-> "fin", s |-> sg, m |-> NAdd(fr, NShl(NOf(1), fb)), e |-> x - bias]
(* signed comparison of s1*m1*2^e1 and s2*m2*2^e2 given as [s, m, e] *)
DCmp(a, b) == LET e == IF a.e < b.e THEN a.e ELSE b.e IN ZCmp(ZShl(Z(a.s, a.m), a.e - e), ZShl(Z(b.s, b.m), b.e - e))
DOf(z) == [s |-> IF z.s = 0 THEN 1 ELSE z.s, m |-> z.m, e |-> 0]
(* truncation towards zero *)
DTrunc(a) == IF a.e >= 0 THEN ZShl(Z(a.s, a.m), a.e) ELSE Z(a.s, NShr(a.m, -a.e))
(* integer-valued *)
DInt(a) == a.m = <<>> \/ a.e >= 0 \/ DCmp(DOf(DTrunc(a)), a) = 0
=============================================================================
