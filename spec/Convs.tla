------------------------------- MODULE Convs --------------------------------
(* Conversion between scalar types.  Values are byte strings (PVTypes).      *)
(* Acc(to, from, v): "ok" must succeed, "no" must be refused, "any" open.    *)
(* Good(to, from, v, r): r is an acceptable result.                          *)
EXTENDS PVTypes, Big
Ints == {"byte","short","int","long","ubyte","ushort","uint","ulong"}
Unsigned == {"ubyte","ushort","uint","ulong"}
Flts == {"float","double"}
Nums == Ints \cup Flts
IVal(t, b) == IF t \in Unsigned THEN UVal(b) ELSE SVal(b)
Lo(t) == IF t \in Unsigned THEN ZZero ELSE ZNeg(ZPow2(8 * Width(t) - 1))
Hi(t) == IF t \in Unsigned THEN ZSub(ZPow2(8 * Width(t)), ZOf(1)) ELSE ZSub(ZPow2(8 * Width(t) - 1), ZOf(1))
InRange(t, z) == ZLe(Lo(t), z) /\ ZLe(z, Hi(t))
-----------------------------------------------------------------------------
(* text *)
WS(c) == c \in {32, 9, 10, 11, 12, 13}
Digit(c) == c \in 48..57
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerS(s) == [i \in 1..Len(s) |-> Lower(s[i])]
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF Lower(c) \in 97..102 THEN Lower(c) - 87 ELSE 99
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s = <<>> THEN s ELSE IF WS(s[1]) THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
RTrim(s) == IF s = <<>> THEN s ELSE IF WS(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
RECURSIVE NBase(_, _, _, _)
NBase(s, i, base, acc) == IF i > Len(s) THEN acc ELSE NBase(s, i + 1, base, NAdd(NMulS(acc, base), NOf(HexV(s[i]))))
NText(s, base) == NBase(s, 1, base, <<>>)
AllIn(s, base) == s # <<>> /\ \A i \in 1..Len(s) : HexV(s[i]) < base
Rest(s, n) == SubSeq(s, n + 1, Len(s))
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
NoInt == [ok |-> FALSE, z |-> ZZero, neg |-> FALSE]
(* integers: decimal, 0 octal, 0x hexadecimal, optional sign, white space around *)
IntText(s0) ==
  LET s == Trim(s0)  neg == s # <<>> /\ s[1] = 45  u == IF Signed(s) THEN Rest(s, 1) ELSE s
      yes(d, b) == [ok |-> TRUE, z |-> Z(IF neg THEN -1 ELSE 1, NText(d, b)), neg |-> neg] IN
  IF Len(u) > 2 /\ u[1] = 48 /\ Lower(u[2]) = 120 /\ AllIn(Rest(u, 2), 16) THEN yes(Rest(u, 2), 16)
  ELSE IF Len(u) > 1 /\ u[1] = 48 THEN (IF AllIn(Rest(u, 1), 8) THEN yes(Rest(u, 1), 8) ELSE NoInt)
  ELSE IF AllIn(u, 10) THEN yes(u, 10) ELSE NoInt
RECURSIVE DecT10(_), DecN(_)
DecN(m) == LET d == NDivS(m, 10) IN IF d.q = <<>> THEN <<48 + d.r>> ELSE DecN(d.q) \o <<48 + d.r>>
DecT10(z) == IF z.s < 0 THEN <<45>> \o DecN(z.m) ELSE DecN(z.m)
(* digits from position i *)
RECURSIVE Run(_, _), ESat(_, _, _)
Run(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN 1 + Run(s, i + 1) ELSE 0
ESat(s, i, acc) == IF i > Len(s) THEN acc ELSE ESat(s, i + 1, IF acc > 100000 THEN acc ELSE acc * 10 + s[i] - 48)
NoFlt == [k |-> "no"]
INF == <<105, 110, 102>>
NAN == <<110, 97, 110>>
(* floating point: [k, s, m, e] for s * m * 10^e *)
FltText(s0) ==
  LET s == Trim(s0)  sg == IF s # <<>> /\ s[1] = 45 THEN -1 ELSE 1  u == IF Signed(s) THEN Rest(s, 1) ELSE s  w == LowerS(u)
      a == Run(u, 1)  dot == Len(u) > a /\ u[a + 1] = 46  b == IF dot THEN Run(u, a + 2) ELSE 0
      p == a + b + (IF dot THEN 1 ELSE 0)  x == Rest(w, p)
      e0 == IF x # <<>> /\ x[1] = 101 THEN Rest(x, 1) ELSE <<>>  es == IF Signed(e0) THEN Rest(e0, 1) ELSE e0
      en == IF x # <<>> THEN (IF e0 # <<>> /\ e0[1] = 45 THEN -1 ELSE 1) * ESat(es, 1, 0) ELSE 0 IN
  IF w = INF \/ w = INF \o <<105, 110, 105, 116, 121>> THEN [k |-> "inf", s |-> sg]
  ELSE IF w = NAN THEN [k |-> "nan"]
  ELSE IF Len(w) > 2 /\ w[1] = 48 /\ w[2] = 120 THEN [k |-> "open"]                      \* hexadecimal
  ELSE IF Len(w) > 3 /\ SubSeq(w, 1, 4) = NAN \o <<40>> THEN [k |-> "open"]
  ELSE IF a + b = 0 \/ (x # <<>> /\ (x[1] # 101 \/ ~AllIn(es, 10))) THEN NoFlt
  ELSE [k |-> "dec", s |-> sg, m |-> NText(SubSeq(u, 1, a) \o (IF dot THEN SubSeq(u, a + 2, a + 1 + b) ELSE <<>>), 10), e |-> en - b]
RECURSIVE NPow10(_)
NPow10(k) == IF k = 0 THEN <<1>> ELSE IF k >= 4 THEN NMulS(NPow10(k - 4), 10000) ELSE NMulS(NPow10(k - 1), 10)
Pos(x) == IF x > 0 THEN x ELSE 0
(* M * 10^E against m * 2^e *)
DecCmp(M, E, m, e) == NCmp(NShl(NMul(M, NPow10(Pos(E))), Pos(-e)), NShl(NMul(m, NPow10(Pos(-E))), Pos(e)))
RECURSIVE NumDig(_)
NumDig(m) == IF m = <<>> THEN 0 ELSE 1 + NumDig(NDivS(m, 10).q)
RECURSIVE DropZ(_, _)       \* decimal without trailing zeros
DropZ(m, e) == IF m = <<>> THEN [m |-> m, e |-> 0] ELSE LET d == NDivS(m, 10) IN IF d.r = 0 THEN DropZ(d.q, e + 1) ELSE [m |-> m, e |-> e]
-----------------------------------------------------------------------------
MaxE(t) == IF t = "double" THEN 1024 ELSE 128
MinE(t) == IF t = "double" THEN -1022 ELSE -126
Bits(t) == IF t = "double" THEN 53 ELSE 24
FltMax(t) == [m |-> NSub(NShl(NOf(1), Bits(t)), NOf(1)), e |-> MaxE(t) - Bits(t)]
FltMin(t) == [m |-> <<1>>, e |-> MinE(t)]
Mag(x) == [s |-> 1, m |-> x.m, e |-> x.e]
(* the finite number f of type ty is x or one of its neighbours: below a   *)
(* power of two they are twice as dense                                     *)
Dense(f, ty) == IF NBits(f.m) = Bits(ty) /\ f.m = NShl(<<1>>, Bits(ty) - 1) THEN [f EXCEPT !.m = NShl(@, 1), !.e = @ - 1] ELSE f
Near(x, f0, ty) == /\ f0.k = "fin" /\ (f0.m # <<>> => f0.s = x.s)
              /\ LET f == IF NCmp(NShl(x.m, Pos(x.e - f0.e)), NShl(f0.m, Pos(f0.e - x.e))) < 0 THEN Dense(f0, ty) ELSE f0
                     e == IF x.e < f.e THEN x.e ELSE f.e  a == NShl(x.m, x.e - e)  b == NShl(f.m, f.e - e)  u == NShl(<<1>>, f.e - e) IN
                 IF NCmp(a, b) >= 0 THEN NCmp(NSub(a, b), u) < 0 ELSE NCmp(NSub(b, a), u) < 0
NearDec(t, f, ty) == /\ f.k = "fin" /\ (f.m # <<>> => f.s = t.s)
                 /\ IF t.m = <<>> THEN f.m = <<>>
                    ELSE DecCmp(t.m, t.e, NAdd(f.m, <<1>>), f.e) < 0 /\ (f.m = <<>> \/ (LET g == Dense(f, ty) IN DecCmp(t.m, t.e, NSub(g.m, <<1>>), g.e) > 0))
(* the text t of the number x: its six leading digits, rounded *)
SixDig(x, t) == LET d == DropZ(t.m, t.e)  n == NumDig(d.m) IN
  IF x.m = <<>> THEN d.m = <<>>
  ELSE /\ t.s = x.s /\ n \in 1..6
       /\ LET M == NMul(d.m, NPow10(6 - n))  q == d.e - (6 - n)  M2 == NMulS(M, 2) IN        \* 2|x - M 10^q| <= 10^q
          DecCmp(NAdd(M2, <<1>>), q, NShl(x.m, 1), x.e) >= 0 /\ DecCmp(NSub(M2, <<1>>), q, NShl(x.m, 1), x.e) <= 0
-----------------------------------------------------------------------------
(* libCom takes the unsigned 64 bit images of small negative numbers, and   *)
(* so their decimal or hexadecimal spelling, for narrower unsigned types    *)
Lenient(to, z) == to \in Unsigned /\ Width(to) < 8 /\ ZLe(z, Hi("ulong")) /\ ZLe(ZSub(ZPow2(64), ZPow2(8 * Width(to))), z)
TRUET == <<116, 114, 117, 101>>
FALSET == <<102, 97, 108, 115, 101>>
Acc(to, from, v) ==
  IF to = from THEN "ok"
  ELSE IF to = "string" THEN "ok"
  ELSE IF from = "string" THEN
    CASE to = "boolean" -> IF LowerS(v) \in {TRUET, FALSET} THEN "ok" ELSE "no"
      [] to \in Ints -> LET t == IntText(v) IN
           IF ~t.ok THEN "no"
           ELSE IF to \in Unsigned /\ t.neg THEN (IF t.z.s = 0 THEN "ok" ELSE "any")          \* libCom takes some negative numbers
           ELSE IF InRange(to, t.z) THEN "ok"
           ELSE IF Lenient(to, t.z) THEN "any" ELSE "no"
      [] OTHER -> LET t == FltText(v) IN
           CASE t.k = "no" -> "no" [] t.k = "open" -> "any" [] t.k \in {"inf", "nan"} -> "ok"
             [] OTHER -> IF t.m = <<>> THEN "ok"
                         ELSE LET mag == NumDig(t.m) + t.e IN                               \* 10^(mag-1) <= |t| < 10^mag
                              IF mag > 400 THEN "no" ELSE IF mag < -400 THEN "any"
                              ELSE IF DecCmp(t.m, t.e, NAdd(FltMax(to).m, <<1>>), FltMax(to).e) >= 0 THEN "no"
                              ELSE IF DecCmp(t.m, t.e, FltMax(to).m, FltMax(to).e) >= 0 THEN "any"
                              ELSE IF DecCmp(t.m, t.e, <<1>>, MinE(to)) <= 0 THEN "any" ELSE "ok"
  ELSE IF "boolean" \in {to, from} THEN "no"
  ELSE "ok"
Good(to, from, v, r) ==
  IF from = to THEN r = v
  ELSE IF to = "string" THEN
    CASE from = "boolean" -> r = (IF v = <<0>> THEN FALSET ELSE TRUET)
      [] from \in Ints -> r = DecT10(IVal(from, v))
      [] OTHER -> LET x == Flt(v)  t == FltText(r) IN
           CASE x.k = "nan" -> t.k = "nan" [] x.k = "inf" -> t.k = "inf" /\ t.s = x.s
             [] OTHER -> t.k = "dec" /\ SixDig(x, t)
  ELSE IF from = "string" THEN
    CASE to = "boolean" -> r = (IF LowerS(v) = TRUET THEN <<1>> ELSE <<0>>)
      [] to \in Ints -> LET t == IntText(v) IN (t.neg /\ to \in Unsigned) \/ Lenient(to, t.z) \/ r = Twos(t.z, Width(to))
      [] OTHER -> LET t == FltText(v)  f == Flt(r) IN
           CASE t.k = "open" -> TRUE [] t.k = "nan" -> f.k = "nan" [] t.k = "inf" -> f.k = "inf" /\ f.s = t.s
             [] OTHER -> Acc(to, from, v) # "ok" \/ NearDec(t, f, to)
  ELSE IF from \in Ints /\ to \in Ints THEN r = Twos(IVal(from, v), Width(to))
  ELSE IF from \in Ints THEN Near(DOf(IVal(from, v)), Flt(r), to)
  ELSE LET x == Flt(v) IN
    IF to \in Ints THEN (x.k # "fin" \/ (LET z == DTrunc(x) IN ~InRange(to, z) \/ r = Twos(z, Width(to))))    \* out of range: undefined
    ELSE LET f == Flt(r) IN
      CASE x.k = "nan" -> f.k = "nan" [] x.k = "inf" -> f = x
        [] to = "double" -> Near(x, f, to)
        [] OTHER -> IF x.m = <<>> THEN f.k = "fin" /\ f.m = <<>>
                    ELSE IF DCmp(Mag(x), Mag(FltMax("float"))) >= 0 THEN (f.k = "fin" /\ f.s = x.s /\ DCmp(Mag(f), Mag(FltMax("float"))) = 0)     \* clipped
                    ELSE IF DCmp(Mag(x), Mag(FltMin("float"))) <= 0 THEN f.k = "fin" /\ f.s = x.s /\ DCmp(Mag(f), Mag(FltMin("float"))) = 0
                    ELSE Near(x, f, to)
=============================================================================
