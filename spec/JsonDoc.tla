------------------------------ MODULE JsonDoc -------------------------------
(* JSON documents (RFC 8259, with comments): texts (sequences of bytes) and  *)
(* the trees they denote.  A tree is                                         *)
(*   [j "o", n, f] object (names, trees)   [j "a", f] array                  *)
(*   [j "int", z, i]  [j "flt", t, i] number, i: its position in the text    *)
(*   [j "str", s]  [j "bool", b]  [j "null"]                                 *)
(* JSON5 allows more; texts which use it are recognised (x).                 *)
EXTENDS Convs, FiniteSets
Ch(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Bad == [ok |-> FALSE, x |-> FALSE, i |-> 0, j |-> [j |-> "none"]]
Open == [Bad EXCEPT !.x = TRUE]                    \* not decided here
Ok(x, i, j) == [ok |-> TRUE, x |-> x, i |-> i, j |-> j]
RECURSIVE Line(_, _), Block(_, _), Skip(_, _, _), WordLen(_, _), StrAt(_, _, _, _, _), ValAt(_, _), EltAt(_, _, _, _), MemAt(_, _, _, _, _)
Line(s, i) == IF Ch(s, i) \in {-1, 10, 13} THEN i ELSE Line(s, i + 1)
Block(s, i) == IF i >= Len(s) THEN -1 ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i + 2 ELSE Block(s, i + 1)
(* white space and comments *)
Skip(s, i, x) ==
  LET c == Ch(s, i) IN
  IF c \in {32, 9, 10, 13} THEN Skip(s, i + 1, x)
  ELSE IF c \in {11, 12} THEN Skip(s, i + 1, TRUE)
  ELSE IF c = 47 /\ Ch(s, i + 1) = 47 THEN LET k == Line(s, i + 2) IN Skip(s, k, x \/ k > Len(s) \/ Ch(s, k) = 13)
  ELSE IF c = 47 /\ Ch(s, i + 1) = 42 THEN LET k == Block(s, i + 2) IN IF k = -1 THEN [i |-> Len(s) + 1, x |-> TRUE] ELSE Skip(s, k, x)
  ELSE [i |-> i, x |-> x]
-----------------------------------------------------------------------------
(* strings *)
Utf(p) == IF p < 128 THEN <<p>>
  ELSE IF p < 2048 THEN <<192 + p \div 64, 128 + (p % 64)>>
  ELSE IF p < 65536 THEN <<224 + p \div 4096, 128 + ((p \div 64) % 64), 128 + (p % 64)>>
  ELSE <<240 + p \div 262144, 128 + ((p \div 4096) % 64), 128 + ((p \div 64) % 64), 128 + (p % 64)>>
Hex4(s, i) == IF i + 3 <= Len(s) /\ (\A k \in 0..3 : HexV(s[i + k]) < 16)
              THEN ((HexV(s[i]) * 16 + HexV(s[i + 1])) * 16 + HexV(s[i + 2])) * 16 + HexV(s[i + 3]) ELSE -1
(* the character of several bytes at i: its length, 0: none; and whether it is a proper one *)
MbLen(c) == CASE c \in 192..223 -> 2 [] c \in 224..239 -> 3 [] c \in 240..247 -> 4 [] OTHER -> 0
Mb(s, i) == LET n == MbLen(s[i]) IN IF n = 0 \/ i + n - 1 > Len(s) THEN 0 ELSE IF \A k \in 1..(n - 1) : s[i + k] \in 128..191 THEN n ELSE 0
MbProper(s, i) == LET c == s[i]  d == s[i + 1] IN
  /\ c \notin {192, 193} /\ c <= 244 /\ (c = 224 => d >= 160) /\ (c = 237 => d < 160) /\ (c = 240 => d >= 144) /\ (c = 244 => d < 144)
Esc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
StrAt(s, i, q, x, acc) ==
  LET c == Ch(s, i) IN
  IF c = -1 THEN Bad
  ELSE IF c = q THEN Ok(x, i + 1, [j |-> "str", s |-> acc])
  ELSE IF c = 92 THEN
    LET d == Ch(s, i + 1) IN
    IF d \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StrAt(s, i + 2, q, x, Append(acc, Esc(d)))
    ELSE IF d = 117 THEN
      LET h == Hex4(s, i + 2)  lo == IF Ch(s, i + 6) = 92 /\ Ch(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1 IN
      IF h = -1 THEN Bad
      ELSE IF h \in 55296..56319 /\ lo \in 56320..57343 THEN StrAt(s, i + 12, q, x, acc \o Utf(65536 + (h - 55296) * 1024 + (lo - 56320)))
      ELSE IF h \in 55296..57343 THEN StrAt(s, i + 6, q, TRUE, Append(acc, 63))
      ELSE StrAt(s, i + 6, q, x, acc \o Utf(h))
    ELSE IF d = 120 THEN (IF HexV(Ch(s, i + 2)) < 16 /\ HexV(Ch(s, i + 3)) < 16 THEN StrAt(s, i + 4, q, TRUE, acc \o Utf(HexV(s[i + 2]) * 16 + HexV(s[i + 3]))) ELSE Bad)
    ELSE IF d = -1 THEN Bad
    ELSE IF d = 10 THEN StrAt(s, i + 2, q, TRUE, acc)
    ELSE IF d >= 128 \/ d = 13 THEN Open
    ELSE StrAt(s, i + 2, q, TRUE, Append(acc, IF d = 48 THEN 0 ELSE IF d = 118 THEN 11 ELSE d))
  ELSE IF c >= 128 THEN
    LET n == Mb(s, i) IN IF n = 0 THEN Bad ELSE StrAt(s, i + n, q, x \/ ~MbProper(s, i), acc \o SubSeq(s, i, i + n - 1))
  ELSE StrAt(s, i + 1, q, x \/ c < 32, Append(acc, c))
-----------------------------------------------------------------------------
(* words: numbers, true, false, null *)
Letter(c) == c \in 65..90 \/ c \in 97..122 \/ c \in {95, 36}
WordChar(c) == Letter(c) \/ Digit(c) \/ c \in {43, 45, 46}
WordLen(s, i) == IF WordChar(Ch(s, i)) THEN 1 + WordLen(s, i + 1) ELSE 0
NULLT == <<110, 117, 108, 108>>
INFT == <<73, 110, 102, 105, 110, 105, 116, 121>>
NANT == <<78, 97, 78>>
(* a number as of RFC 8259 *)
Num(w) ==
  LET u == IF w[1] = 45 THEN Rest(w, 1) ELSE w  a == Run(u, 1)
      dot == Ch(u, a + 1) = 46  b == IF dot THEN Run(u, a + 2) ELSE 0
      p == a + b + (IF dot THEN 1 ELSE 0)
      ex == Ch(u, p + 1) \in {101, 69}  sg == Ch(u, p + 2) \in {43, 45}
      q == p + 1 + (IF sg THEN 1 ELSE 0)  c == IF ex THEN Run(u, q + 1) ELSE 0 IN
  IF a = 0 \/ (u[1] = 48 /\ a > 1) \/ (dot /\ b = 0) \/ (ex /\ c = 0) \/ (IF ex THEN q + c ELSE p) # Len(u) THEN "no"
  ELSE IF dot \/ ex THEN "flt" ELSE "int"
IntTextD(w) == IF w[1] = 45 THEN Z(-1, NText(Rest(w, 1), 10)) ELSE Z(1, NText(w, 10))
WordAt(s, i) ==
  LET n == WordLen(s, i)  w == SubSeq(s, i, i + n - 1) IN
  IF n = 0 THEN (IF Ch(s, i) >= 128 THEN Open ELSE Bad)
  ELSE IF w = TRUET \/ w = FALSET THEN Ok(FALSE, i + n, [j |-> "bool", b |-> w = TRUET])
  ELSE IF w = NULLT THEN Ok(FALSE, i + n, [j |-> "null"])
  ELSE CASE Num(w) = "int" -> Ok(FALSE, i + n, [j |-> "int", z |-> IntTextD(w), i |-> i])
         [] Num(w) = "flt" -> Ok(FALSE, i + n, [j |-> "flt", t |-> FltText(w), i |-> i])
         [] OTHER -> LET u == IF w[1] \in {43, 45} THEN Rest(w, 1) ELSE w  sg == IF w[1] = 45 THEN -1 ELSE 1 IN
              IF u = NANT THEN Ok(TRUE, i + n, [j |-> "nan"])
              ELSE IF u = INFT THEN Ok(TRUE, i + n, [j |-> "inf", s |-> sg])
              ELSE IF (Len(u) > 2 /\ u[1] = 48 /\ Lower(Ch(u, 2)) = 120 /\ AllIn(Rest(u, 2), 16)) \/ FltText(u).k = "dec" THEN Ok(TRUE, i + n, [j |-> "x"])
              ELSE Bad
(* a value; after [ or , an element; after { or , a member *)
ValAt(s, i) ==
  LET c == Ch(s, i) IN
  IF c \in {34, 39} THEN StrAt(s, i + 1, c, c = 39, <<>>)
  ELSE IF c = 91 THEN EltAt(s, i + 1, FALSE, <<>>)
  ELSE IF c = 123 THEN MemAt(s, i + 1, FALSE, <<>>, <<>>)
  ELSE WordAt(s, i)
EltAt(s, i, x, f) ==
  LET k == Skip(s, i, x) IN
  IF Ch(s, k.i) = 93 THEN Ok(k.x \/ f # <<>>, k.i + 1, [j |-> "a", f |-> f])
  ELSE LET v == ValAt(s, k.i) IN
    IF ~v.ok THEN v
    ELSE LET m == Skip(s, v.i, k.x \/ v.x)  c == Ch(s, m.i) IN
      IF c = 93 THEN Ok(m.x, m.i + 1, [j |-> "a", f |-> Append(f, v.j)])
      ELSE IF c = 44 THEN EltAt(s, m.i + 1, m.x, Append(f, v.j)) ELSE IF c >= 128 THEN Open ELSE Bad
KeyAt(s, i) == IF Ch(s, i) \in {34, 39} THEN ValAt(s, i)
  ELSE LET n == WordLen(s, i)  w == SubSeq(s, i, i + n - 1) IN
    IF n > 0 /\ ~Digit(s[i]) /\ (\A k \in 1..n : w[k] \notin {43, 45, 46}) THEN (IF Ch(s, i + n) >= 128 \/ Ch(s, i + n) = 92 THEN Open ELSE Ok(TRUE, i + n, [j |-> "str", s |-> w]))
    ELSE IF Ch(s, i) >= 128 \/ Ch(s, i) = 92 THEN Open ELSE Bad
MemAt(s, i, x, n, f) ==
  LET k == Skip(s, i, x) IN
  IF Ch(s, k.i) = 125 THEN Ok(k.x \/ f # <<>>, k.i + 1, [j |-> "o", n |-> n, f |-> f])
  ELSE LET a == KeyAt(s, k.i) IN
    IF ~a.ok THEN a
    ELSE LET l == Skip(s, a.i, k.x \/ a.x) IN
      IF Ch(s, l.i) # 58 THEN (IF Ch(s, l.i) >= 128 THEN Open ELSE Bad)
      ELSE LET h == Skip(s, l.i + 1, l.x)  v == ValAt(s, h.i) IN
        IF ~v.ok THEN v
        ELSE LET m == Skip(s, v.i, h.x \/ v.x)  c == Ch(s, m.i) IN
          IF c = 125 THEN Ok(m.x, m.i + 1, [j |-> "o", n |-> Append(n, a.j.s), f |-> Append(f, v.j)])
          ELSE IF c = 44 THEN MemAt(s, m.i + 1, m.x, Append(n, a.j.s), Append(f, v.j)) ELSE IF c >= 128 THEN Open ELSE Bad
(* a document: one value *)
Doc(s) == LET k == Skip(s, 1, FALSE)  v == ValAt(s, k.i) IN
  IF ~v.ok THEN v
  ELSE LET m == Skip(s, v.i, k.x \/ v.x) IN IF m.i > Len(s) THEN Ok(m.x, m.i, v.j) ELSE IF Ch(s, m.i) >= 128 THEN Open ELSE Bad
(* without the white space outside of strings *)
RECURSIVE Sq(_, _, _, _)
Sq(s, i, q, acc) == IF i > Len(s) THEN acc
  ELSE IF q = 0 THEN (IF s[i] \in {32, 9, 10, 13} THEN Sq(s, i + 1, 0, acc) ELSE Sq(s, i + 1, IF s[i] \in {34, 39} THEN s[i] ELSE 0, Append(acc, s[i])))
  ELSE IF s[i] = 92 /\ i < Len(s) THEN Sq(s, i + 2, q, acc \o <<s[i], s[i + 1]>>)
  ELSE Sq(s, i + 1, IF s[i] = q THEN 0 ELSE q, Append(acc, s[i]))
Squeeze(s) == Sq(s, 1, 0, <<>>)
(* numbers beyond those a machine holds *)
RECURSIVE Wild(_)
Wild(j) == CASE j.j \in {"o", "a"} -> \E i \in 1..Len(j.f) : Wild(j.f[i])
  [] j.j = "int" -> ~ZLt(ZAbs(j.z), ZSub(Hi("long"), ZOf(7)))       \* (the parser refuses the largest)
  [] j.j = "flt" -> j.t.m # <<>> /\ (LET mag == NumDig(j.t.m) + j.t.e IN IF mag > 308 \/ mag < -306 THEN TRUE ELSE FALSE)
  [] j.j \in {"x", "nan", "inf"} -> TRUE
  [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* The tree j says what the value v of type t is; of a structure, those      *)
(* fields which, or an enclosing structure of which, or a field within which *)
(* is in the mask m                                                          *)
Widen(f, w) == IF w = 8 \/ f.k # "fin" THEN f ELSE [f EXCEPT !.m = NShl(@, 29), !.e = @ - 29]
(* the number in decimal is nearest to f *)
Nearest(t, f) == /\ t.s = f.s
  /\ IF t.m = <<>> THEN f.m = <<>>
     ELSE LET g == Dense(f, "double")  h == NAdd(NShl(f.m, 1), <<1>>) IN
       /\ DecCmp(NMulS(t.m, 2), t.e, h, f.e) <= 0
       /\ f.m = <<>> \/ DecCmp(NMulS(t.m, 2), t.e, NSub(NShl(g.m, 1), <<1>>), g.e) >= 0
DenS(t, v, j) ==
  CASE t = "string" -> IF j.j = "str" THEN j.s = v ELSE FALSE
    [] t = "boolean" -> IF j.j = "bool" THEN j.b = (v # <<0>>) ELSE FALSE
    [] t \in Ints -> IF j.j = "int" THEN j.z = IVal(t, v) ELSE FALSE
    [] OTHER -> LET f == Widen(Flt(v), Width(t)) IN
         CASE f.k = "nan" -> j.j = "nan" [] f.k = "inf" -> IF j.j = "inf" THEN j.s = f.s ELSE FALSE
           [] OTHER -> IF j.j = "flt" THEN Nearest(j.t, f) ELSE FALSE
Shown(t, base, m) == \E o \in m : o >= base /\ o < base + NF(t)
RECURSIVE Den(_, _, _, _, _, _), Unsayable(_, _, _, _, _)
ALL == {0}
Den(t, v, j, base, m, all) ==
  CASE t.k = "s" -> DenS(t.t, v, j)
    [] t.k = "sa" -> IF j.j = "a" THEN Len(j.f) = Len(v) /\ \A i \in 1..Len(v) : DenS(t.t, v[i], j.f[i]) ELSE FALSE
    [] t.k = "st" -> IF j.j # "o" THEN FALSE
         ELSE LET a == all \/ base \in m  Sel == {i \in 1..Len(t.f) : a \/ Shown(t.f[i], OffsetOf(t, base, i), m)} IN
              /\ Len(j.f) = Cardinality(Sel)
              /\ \A i \in Sel : LET k == Cardinality({x \in Sel : x <= i}) IN j.n[k] = t.n[i] /\ Den(t.f[i], v.f[i], j.f[k], OffsetOf(t, base, i), m, a)
    [] t.k = "u" -> IF v = Empty \/ v = Unsel THEN j.j = "null"
         ELSE IF IsVariant(t) THEN Den(v.t, v.v, j, 0, ALL, TRUE) ELSE Den(t.f[v.sel + 1], v.v, j, 0, ALL, TRUE)
    [] OTHER -> IF j.j # "a" THEN FALSE
         ELSE Len(j.f) = Len(v) /\ \A i \in 1..Len(v) : IF v[i] = Null THEN j.f[i].j = "null" ELSE Den(t.e, v[i], j.f[i], 0, ALL, TRUE)
(* holds a number which is none *)
NoNum(t, v) == t \in Flts /\ Flt(v).k # "fin"
Unsayable(t, v, base, m, all) ==
  CASE t.k = "s" -> NoNum(t.t, v)
    [] t.k = "sa" -> \E i \in 1..Len(v) : NoNum(t.t, v[i])
    [] t.k = "st" -> LET a == all \/ base \in m IN \E i \in 1..Len(t.f) : (a \/ Shown(t.f[i], OffsetOf(t, base, i), m)) /\ Unsayable(t.f[i], v.f[i], OffsetOf(t, base, i), m, a)
    [] t.k = "u" -> IF v = Empty \/ v = Unsel THEN FALSE ELSE IF IsVariant(t) THEN Unsayable(v.t, v.v, 0, ALL, TRUE) ELSE Unsayable(t.f[v.sel + 1], v.v, 0, ALL, TRUE)
    [] OTHER -> \E i \in 1..Len(v) : v[i] # Null /\ Unsayable(t.e, v[i], 0, ALL, TRUE)
=============================================================================
