------------------------------- MODULE ConvsMC ------------------------------
(* Laws of the conversions, for many numbers and all pairs of types.         *)
EXTENDS Convs, TLC
CONSTANT M, K
VARIABLES n, ft, tt, ph
vars == <<n, ft, tt, ph>>
Edge == {126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 1000001, 1234567, 8388607, 8388608, 16777215, 16777216, 16777217}
BigZ == {ZSub(ZPow2(k), ZOf(1)) : k \in K} \cup {ZPow2(k) : k \in K} \cup {ZAdd(ZPow2(k), ZOf(1)) : k \in K}
Zs == {ZOf(x) : x \in (0..M) \cup Edge} \cup BigZ
AllZ == Zs \cup {ZNeg(z) : z \in Zs}
Init == n \in AllZ /\ ph = 0 /\ ft = "int" /\ tt = "int"
Next == ph = 0 /\ ph' = 1 /\ n' = n /\ ft' \in Nums /\ tt' \in Nums
Spec == Init /\ [][Next]_vars
RECURSIVE DropB(_)
DropB(m) == IF m = <<>> \/ m[1] # 0 THEN m ELSE DropB(SubSeq(m, 2, Len(m)))
RECURSIVE Odd(_)
Odd(m) == IF m = <<>> \/ m[1] % 2 = 1 THEN m ELSE Odd(NShr(m, 1))
DropZ2(m) == Odd(DropB(m))
(* the machine number of an integer which has one *)
Fits(t, z) == IF t \in Ints THEN InRange(t, z) ELSE NBits(DropZ2(z.m)) <= Bits(t)
FEnc(t, z) == IF z.m = <<>> THEN Zeros(Width(t)) ELSE
  LET b == NBits(z.m)  x == b - 1 + (IF t = "double" THEN 1023 ELSE 127)  fb == Bits(t) - 1
      fr == IF b - 1 <= fb THEN NShl(NSub(z.m, NShl(<<1>>, b - 1)), fb - (b - 1)) ELSE NShr(NSub(z.m, NShl(<<1>>, b - 1)), b - 1 - fb)
      all == NAdd(NAdd(NShl(NOf(x), fb), fr), IF z.s < 0 THEN NShl(<<1>>, 8 * Width(t) - 1) ELSE <<>>) IN Twos(Z(1, all), Width(t))
Mach(t, z) == IF t \in Ints THEN Twos(z, Width(t)) ELSE FEnc(t, z)
Samp == Fits(ft, n)
Text == ph = 0 => LET z == n IN
  /\ IntText(DecT10(z)).ok /\ IntText(DecT10(z)).z = z
  /\ IntText(<<32, 9>> \o DecT10(z) \o <<10>>).z = z /\ ~IntText(DecT10(z) \o <<120>>).ok /\ ~IntText(DecT10(z) \o <<32, 49>>).ok
  /\ LET t == FltText(DecT10(z)) IN t.k = "dec" /\ DecCmp(t.m, t.e, z.m, 0) = 0
  /\ LET t == FltText(DecT10(z) \o <<46, 53, 101, 45, 49>>) IN t.k = "dec" /\ t.e = -2 /\ DecCmp(t.m, 1, NAdd(NMulS(z.m, 100), NOf(50)), 0) = 0
  /\ \A t \in Ints : Acc(t, "string", DecT10(z)) = (IF InRange(t, z) THEN "ok" ELSE IF t \in Unsigned /\ (z.s < 0 \/ Lenient(t, z)) THEN "any" ELSE "no")
  /\ \A t \in Ints : InRange(t, z) => LET v == Twos(z, Width(t)) IN IVal(t, v) = z /\ Good("string", t, v, DecT10(z)) /\ Good(t, "string", DecT10(z), v)
  /\ \A t \in Flts : Fits(t, z) => LET v == FEnc(t, z) IN Good(t, "string", DecT10(z), v) /\ (NumDig(DropZ(z.m, 0).m) <= 6 => Good("string", t, v, DecT10(z)))
(* the same value wherever there is one; no other result is acceptable *)
Conv == ph = 1 /\ Samp => LET v == Mach(ft, n) IN
  /\ Acc(tt, ft, v) = "ok"
  /\ Fits(tt, n) => Good(tt, ft, v, Mach(tt, n)) /\ (tt \in Ints => ~Good(tt, ft, v, Twos(ZAdd(n, ZOf(1)), Width(tt))))
  /\ (tt \in Flts /\ Fits(tt, n) /\ Fits(tt, ZAdd(n, ZOf(1)))) => ~Good(tt, ft, v, Mach(tt, ZAdd(n, ZOf(1))))
  /\ (ft \in Ints /\ tt \in Ints) => Good(tt, ft, v, Twos(n, Width(tt)))        \* narrowing keeps the low bytes
  /\ (ft \in Ints /\ tt \in Ints /\ Width(tt) >= Width(ft) /\ ((tt \in Unsigned) = (ft \in Unsigned))) => Good(ft, tt, Mach(tt, n), v)
=============================================================================
