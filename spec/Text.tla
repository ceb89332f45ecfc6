-------------------------------- MODULE Text --------------------------------
(* C38.  The text shown for types and values (byte sequences), numbers in    *)
(* floating point being given by their texts.                                *)
EXTENDS JsonDoc
NL == <<10>>
SP == <<32>>
Ind(n) == [i \in 1..(4 * n) |-> 32]
-----------------------------------------------------------------------------
(* escaping, and what an escaped text denotes *)
HexD(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Letters == [c \in {7, 8, 12, 10, 13, 9, 11} |-> CASE c = 7 -> 97 [] c = 8 -> 98 [] c = 12 -> 102 [] c = 10 -> 110 [] c = 13 -> 114 [] c = 9 -> 116 [] OTHER -> 118]
Plain(c) == c \in 32..126
EscC(c, csv) == IF c \in DOMAIN Letters THEN <<92, Letters[c]>>
  ELSE IF c = 34 THEN <<IF csv THEN 34 ELSE 92, 34>>
  ELSE IF c \in {92, 39} THEN <<92, c>>
  ELSE IF Plain(c) THEN <<c>> ELSE <<92, 120, HexD(c \div 16), HexD(c % 16)>>
EscT(s, csv) == Cat([i \in 1..Len(s) |-> EscC(s[i], csv)])
Quoted(s) == <<34>> \o s \o <<34>>
Special(c) == ~Plain(c) \/ c \in {32, 34, 39, 92}
MaybeQ(s) == IF \E i \in 1..Len(s) : Special(s[i]) THEN Quoted(EscT(s, FALSE)) ELSE s
Csv(s) == IF \E i \in 1..Len(s) : s[i] \in {34, 32, 44, 92} THEN Quoted(EscT(s, TRUE)) ELSE EscT(s, TRUE)
RECURSIVE Unesc(_, _)
Unesc(s, i) == IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 92 THEN <<s[i]>> \o Unesc(s, i + 1)
  ELSE IF s[i + 1] = 120 THEN <<HexV(s[i + 2]) * 16 + HexV(s[i + 3])>> \o Unesc(s, i + 4)
  ELSE LET L == {c \in DOMAIN Letters : Letters[c] = s[i + 1]} IN <<IF L # {} THEN CHOOSE c \in L : TRUE ELSE s[i + 1]>> \o Unesc(s, i + 2)
-----------------------------------------------------------------------------
(* identifiers *)
Name(t) == CASE t = "boolean" -> <<98,111,111,108,101,97,110>> [] t = "byte" -> <<98,121,116,101>> [] t = "short" -> <<115,104,111,114,116>>
  [] t = "int" -> <<105,110,116>> [] t = "long" -> <<108,111,110,103>> [] t = "ubyte" -> <<117,98,121,116,101>> [] t = "ushort" -> <<117,115,104,111,114,116>>
  [] t = "uint" -> <<117,105,110,116>> [] t = "ulong" -> <<117,108,111,110,103>> [] t = "float" -> <<102,108,111,97,116>> [] t = "double" -> <<100,111,117,98,108,101>>
  [] OTHER -> <<115,116,114,105,110,103>>
DecI(n) == DecT10(ZOf(n))
RECURSIVE IdOf(_)
IdOf(t) == CASE t.k = "s" -> Name(t.t) \o (IF t.max > 0 THEN <<40>> \o DecI(t.max) \o <<41>> ELSE <<>>)
  [] t.k = "sa" -> Name(t.t) \o (CASE t.b = "v" -> <<91, 93>> [] t.b = "b" -> <<60>> \o DecI(t.n) \o <<62>> [] OTHER -> <<91>> \o DecI(t.n) \o <<93>>)
  [] t.k \in {"st", "u"} -> t.id
  [] OTHER -> IdOf(t.e) \o <<91, 93>>
(* types; h: a union's array members are headed by their identifier once more *)
RECURSIVE TText(_, _, _), TFields(_, _, _)
TText(t, n, h) == Ind(n) \o IdOf(t) \o
  (CASE t.k \in {"st", "u"} -> NL \o TFields(t, n + 1, h) [] t.k \in {"sta", "ua"} -> NL \o TText(t.e, n + 1, h) [] OTHER -> <<>>)
TFields(t, n, h) == Cat([i \in 1..Len(t.f) |-> LET x == t.f[i] IN
  Ind(n) \o IdOf(x) \o SP \o t.n[i] \o NL \o
  (CASE x.k \in {"st", "u"} -> TFields(x, n + 1, h)
     [] x.k \in {"sta", "ua"} -> IF t.k = "u" /\ h THEN TText(x, n + 1, h) ELSE TText(x.e, n + 1, h)
     [] OTHER -> <<>>)])
-----------------------------------------------------------------------------
(* values; G: the texts of floating point numbers *)
NONE == <<40, 110, 111, 110, 101, 41>>
Sc(t, v, G) == CASE t = "string" -> MaybeQ(v) [] t = "boolean" -> (IF v = <<0>> THEN FALSET ELSE TRUET)
  [] t \in Ints -> DecT10(IVal(t, v)) [] OTHER -> G[<<t, v>>]
Join(s, sep) == Cat([i \in 1..Len(s) |-> IF i = 1 THEN s[i] ELSE sep \o s[i]])
Val(t, v, G) == IF t.k = "s" THEN Sc(t.t, v, G)
  ELSE <<91>> \o Join([i \in 1..Len(v) |-> Sc(t.t, v[i], G)], IF t.t = "string" THEN <<44, 32>> ELSE <<44>>) \o <<93>>
IsLeaf(t) == t.k \in {"s", "sa"}
RECURSIVE Dump(_, _, _, _, _), Line1(_, _, _, _, _)
Line1(t, v, nm, n, G) == IF IsLeaf(t) THEN Ind(n) \o IdOf(t) \o SP \o nm \o SP \o Val(t, v, G) \o NL ELSE Dump(t, v, nm, n, G)
Hd(t, nm, n) == Ind(n) \o IdOf(t) \o SP \o nm
Dump(t, v, nm, n, G) ==
  CASE IsLeaf(t) -> Val(t, v, G)
    [] t.k = "st" -> Hd(t, nm, n) \o NL \o Cat([i \in 1..Len(t.f) |-> Line1(t.f[i], v.f[i], t.n[i], n + 1, G)])
    [] t.k = "u" -> Hd(t, nm, n) \o NL \o
         (IF v = Empty \/ v = Unsel THEN Ind(n + 1) \o NONE \o NL
          ELSE IF IsVariant(t) THEN Line1(v.t, v.v, <<>>, n + 1, G) ELSE Line1(t.f[v.sel + 1], v.v, <<>>, n + 1, G))
    [] OTHER -> Hd(t, nm, n) \o NL \o Cat([i \in 1..Len(v) |-> IF v[i] = Null THEN Ind(n + 1) \o NONE \o NL ELSE Dump(t.e, v[i], <<>>, n + 1, G)])
-----------------------------------------------------------------------------
(* alarms, times, choices *)
Sub(t, v, nm) == LET I == {i \in 1..Len(t.f) : t.n[i] = nm} IN
  IF I = {} THEN [ok |-> FALSE] ELSE LET i == CHOOSE x \in I : TRUE IN [ok |-> TRUE, t |-> t.f[i], v |-> v.f[i]]
IsS(s, ty) == s.ok /\ (s.ok => s.t.k = "s" /\ s.t.t = ty)
Whole(s) == s.ok /\ (s.ok => s.t.k = "s" /\ s.t.t \in Ints)
SEV == <<115,101,118,101,114,105,116,121>>
STATUS == <<115,116,97,116,117,115>>
MSG == <<109,101,115,115,97,103,101>>
W(k, n) == CASE k = "sev" -> (CASE n = 1 -> <<77,73,78,79,82>> [] n = 2 -> <<77,65,74,79,82>> [] n = 3 -> <<73,78,86,65,76,73,68>> [] n = 4 -> <<85,78,68,69,70,73,78,69,68>> [] OTHER -> DecI(n))
  [] OTHER -> (CASE n = 1 -> <<68,69,86,73,67,69>> [] n = 2 -> <<68,82,73,86,69,82>> [] n = 3 -> <<82,69,67,79,82,68>> [] n = 4 -> <<68,66>> [] n = 5 -> <<67,79,78,70>> [] n = 6 -> <<85,78,68,69,70,73,78,69,68>> [] n = 7 -> <<67,76,73,69,78,84>> [] OTHER -> DecI(n))
I32(b) == LET z == SVal(b)  n == NDivS(z.m, 65536) IN z      \* (a number of any size)
WordOf(k, b) == LET z == I32(b) IN IF z.s >= 0 /\ Len(z.m) <= 1 THEN W(k, IF z.m = <<>> THEN 0 ELSE z.m[1]) ELSE DecT10(z)
AlarmTx(t, v) ==
  LET se == Sub(t, v, SEV)  st == Sub(t, v, STATUS)  me == Sub(t, v, MSG) IN
  IF ~IsS(se, "int") THEN <<>> ELSE IF SVal(se.v) = ZZero THEN <<>>
  ELSE WordOf("sev", se.v) \o SP \o (IF ~IsS(st, "int") THEN <<>> ELSE IF SVal(st.v) = ZZero THEN <<>> ELSE WordOf("sta", st.v) \o SP)
       \o (IF ~IsS(me, "string") THEN <<>> ELSE IF me.v = <<>> THEN <<>> ELSE me.v \o SP)
(* the civil date of a day since 1970-01-01 *)
Civil(day) == LET z == day + 719468  era == z \div 146097  doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)  mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1  m == IF mp < 10 THEN mp + 3 ELSE mp - 9 IN
  [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]
Two(n) == <<48 + n \div 10, 48 + (n % 10)>>
RECURSIVE PadR(_, _), PadL(_, _), NInt(_)
PadR(s, n) == IF Len(s) >= n THEN s ELSE PadR(Append(s, 32), n)
PadL(s, n) == IF Len(s) >= n THEN s ELSE PadL(<<32>> \o s, n)
NInt(m) == IF m = <<>> THEN 0 ELSE m[1] + 256 * NInt(Tail(m))
E1990 == NAdd(NMulS(NOf(631152), 1000), <<>>)
UNDEF == <<60,117,110,100,101,102,105,110,101,100,62>>
(* sec: since 1970 (a number >= 0 or below 2126); ns < 10^9 *)
Stamp(sec, ns) ==
  LET q == IF sec.s > 0 /\ NCmp(sec.m, E1990) > 0 THEN sec.m ELSE E1990  a == NDivS(q, 86400)  c == Civil(NInt(a.q))  s == a.r
      f == ns \div 1000000  r == IF ns % 1000000 >= 500000 /\ f < 999 THEN f + 1 ELSE f IN
  IF q = E1990 /\ ns = 0 THEN UNDEF
  ELSE DecI(c.y) \o <<45>> \o Two(c.m) \o <<45>> \o Two(c.d) \o SP \o Two(s \div 3600) \o <<58>> \o Two((s \div 60) % 60) \o <<58>> \o Two(s % 60)
       \o <<46, 48 + r \div 100>> \o Two(r % 100)
SECS == <<115,101,99,111,110,100,115,80,97,115,116,69,112,111,99,104>>
NSEC == <<110,97,110,111,115,101,99,111,110,100,115>>
TAG == <<117,115,101,114,84,97,103>>
TimeTx(t, v) ==
  LET a == Sub(t, v, SECS)  b == Sub(t, v, NSEC)  g == Sub(t, v, TAG)
      sec == IF Whole(a) THEN IVal(a.t.t, a.v) ELSE ZZero  ns == IF Whole(b) THEN NInt(IVal(b.t.t, b.v).m) ELSE 0 IN
  PadR(Stamp(sec, ns), 24) \o SP \o (IF ~Whole(g) THEN <<>> ELSE IF IVal(g.t.t, g.v) = ZZero THEN <<>> ELSE DecT10(IVal(g.t.t, g.v)) \o SP)
INDEX == <<105,110,100,101,120>>
CHOICES == <<99,104,111,105,99,101,115>>
IsEnum(t, v) == LET i == Sub(t, v, INDEX)  c == Sub(t, v, CHOICES) IN Whole(i) /\ c.ok /\ (c.ok => c.t.k = "sa" /\ c.t.t = "string")
EnumTx(t, v) ==
  LET x == Sub(t, v, INDEX)  c == Sub(t, v, CHOICES).v  z == IVal(x.t.t, x.v)  u == IF z.s < 0 THEN ZAdd(z, ZPow2(32)) ELSE z IN
  <<40>> \o DecT10(u) \o <<41>> \o SP \o (IF ZLt(u, ZOf(Len(c))) THEN MaybeQ(c[NInt(u.m) + 1]) ELSE UNDEF)
-----------------------------------------------------------------------------
(* the selected parts of a structure; hl: highlighted *)
ALARMT == <<97,108,97,114,109,95,116>>
TIMET == <<116,105,109,101,95,116>>
ENUMT == <<101,110,117,109,95,116>>
BOLD == <<27, 91, 49, 109>>
RESET == <<27, 91, 48, 109>>
Suffix(t, v) == IF t.id = ALARMT THEN SP \o AlarmTx(t, v) ELSE IF t.id = TIMET THEN SP \o TimeTx(t, v)
  ELSE IF t.id = ENUMT THEN SP \o (IF IsEnum(t, v) THEN EnumTx(t, v) ELSE <<>>) ELSE <<>>
RECURSIVE Raw(_, _, _, _, _, _, _, _, _, _)
Raw(t, v, nm, n, base, m, all, hm, hall, G) ==
  LET a == all \/ base \in m  h == hall \/ base \in hm
      B(s) == IF h THEN BOLD \o s \o RESET ELSE s IN
  IF ~a /\ ~Shown(t, base, m) THEN <<>>
  ELSE IF t.k # "st" THEN B(Line1(t, v, nm, n, G))
  ELSE B(Hd(t, nm, n) \o Suffix(t, v) \o NL) \o Cat([i \in 1..Len(t.f) |-> Raw(t.f[i], v.f[i], t.n[i], n + 1, OffsetOf(t, base, i), m, a, hm, h, G)])
RawText(t, v, n, m, hm, G) == Raw(t, v, <<>>, n, 0, m, FALSE, hm, FALSE, G)
-----------------------------------------------------------------------------
(* standard structures *)
VALUE == <<118,97,108,117,101>>
TS == <<116,105,109,101,83,116,97,109,112>>
ALARM == <<97,108,97,114,109>>
LABELS == <<108,97,98,101,108,115>>
NTTABLE == <<101,112,105,99,115,58,110,116,47,78,84,84,97,98,108,101,58,49>>
RECURSIVE Upto(_, _)
Upto(s, c) == IF s = <<>> THEN s ELSE IF s[1] = c THEN <<>> ELSE <<s[1]>> \o Upto(Tail(s), c)
IsSt(s) == s.ok /\ (s.ok => s.t.k = "st")
TimeT(t, v) == LET s == Sub(t, v, TS) IN IF IsSt(s) THEN TimeTx(s.t, s.v) ELSE <<>>
AlarmT(t, v) == LET s == Sub(t, v, ALARM) IN IF IsSt(s) THEN AlarmTx(s.t, s.v) ELSE <<>>
MaxL(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MinL(S) == CHOOSE x \in S : \A y \in S : x <= y
Cell(t, v, G) == Csv(IF t = "string" THEN v ELSE Sc(t, v, G))
Table(t, v, c, n, G) ==
  LET lab == Sub(t, v, LABELS)  L == IF lab.ok /\ (lab.ok => lab.t.k = "sa" /\ lab.t.t = "string") THEN lab.v ELSE <<>>
      K == Len(c.t.f)
      Hdr == [i \in 1..K |-> IF i <= Len(L) THEN Csv(L[i]) ELSE c.t.n[i]]
      D == [i \in 1..K |-> [j \in 1..Len(c.v.f[i]) |-> Cell(c.t.f[i].t, c.v.f[i][j], G)]]
      Wd == [i \in 1..K |-> MaxL({Len(Hdr[i])} \cup {Len(D[i][j]) : j \in 1..Len(D[i])})]
      R == MinL({Len(D[i]) : i \in 1..K})
      RowT(F(_)) == Ind(n) \o Join([i \in 1..K |-> PadL(F(i), Wd[i])], SP) \o NL
      ht == Sub(t, v, TS).ok  ha == Sub(t, v, ALARM).ok
      meta == (IF ht \/ ha THEN Ind(n) ELSE <<>>) \o (IF ht THEN TimeT(t, v) \o SP ELSE <<>>) \o (IF ha THEN AlarmT(t, v) \o SP ELSE <<>>) \o NL
      HF(i) == Hdr[i] IN
  meta \o RowT(HF) \o Cat([j \in 1..R |-> LET F(i) == D[i][j] IN RowT(F)])
NtText(t, v, n, m, hm, G) ==
  LET c == Sub(t, v, VALUE)  raw == RawText(t, v, n, m, hm, G) IN
  IF ~c.ok THEN raw
  ELSE IF Upto(t.id, 46) = NTTABLE THEN
    IF c.t.k = "st" /\ (c.t.k = "st" => c.t.f # <<>> /\ \A i \in 1..Len(c.t.f) : c.t.f[i].k = "sa") THEN Table(t, v, c, n, G) ELSE raw
  ELSE CASE c.t.k = "s" -> Ind(n) \o TimeT(t, v) \o Val(c.t, c.v, G) \o SP \o AlarmT(t, v) \o NL
         [] c.t.k = "sa" -> Ind(n) \o TimeT(t, v) \o AlarmT(t, v) \o Val(c.t, c.v, G) \o NL
         [] c.t.k = "st" -> IF IsEnum(c.t, c.v) THEN Ind(n) \o TimeT(t, v) \o AlarmT(t, v) \o EnumTx(c.t, c.v) \o NL ELSE raw
         [] OTHER -> raw
=============================================================================
