-------------------------------- MODULE Wire --------------------------------
(* Primitive wire encodings.  Bytes are naturals 0..255, a message is a     *)
(* sequence of bytes.  bo is "B" (big endian) or "L".                       *)
EXTENDS Integers, Sequences, FiniteSets
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Ord(bo, s) == IF bo = "B" THEN s ELSE Rev(s)
(* RECURSIVE flattening of a sequence of byte strings *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>>
           ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET h == Len(ss) \div 2 IN Cat(SubSeq(ss, 1, h)) \o Cat(SubSeq(ss, h + 1, Len(ss)))
Pow2(n) == 2 ^ n
(* big-endian bytes of 0 <= n < 2^31 *)
Int4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
(* sizes: -1 stands for the null size *)
SizeEnc(n, bo) == IF n = -1 THEN <<255>> ELSE IF n < 254 THEN <<n>> ELSE <<254>> \o Ord(bo, Int4(n))
StrEnc(b, bo) == SizeEnc(Len(b), bo) \o b
(* decoding a size at the head of s: [ok, n, used] *)
SizeDec(s, bo) ==
  IF s = <<>> THEN [ok |-> FALSE, n |-> 0, used |-> 0]
  ELSE IF s[1] = 255 THEN [ok |-> TRUE, n |-> -1, used |-> 1]
  ELSE IF s[1] # 254 THEN [ok |-> TRUE, n |-> s[1], used |-> 1]
  ELSE IF Len(s) < 5 THEN [ok |-> FALSE, n |-> 0, used |-> 0]
  ELSE LET b == Ord(bo, SubSeq(s, 2, 5)) IN
       IF b[1] >= 128 THEN [ok |-> FALSE, n |-> 0, used |-> 0]
       ELSE [ok |-> TRUE, n |-> ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4], used |-> 5]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
(* a string at the head of s (null size reads as the empty string) *)
StrDec(s, bo) ==
  LET h == SizeDec(s, bo) IN
  IF ~h.ok THEN [ok |-> FALSE, b |-> <<>>, used |-> 0]
  ELSE IF h.n = -1 THEN [ok |-> TRUE, b |-> <<>>, used |-> 1]
  ELSE IF h.n > Len(s) - h.used THEN [ok |-> FALSE, b |-> <<>>, used |-> 0]
  ELSE [ok |-> TRUE, b |-> SubSeq(s, h.used + 1, h.used + h.n), used |-> h.used + h.n]
(* the part of b an (offset, count) slice selects *)
Slice(b, off, cnt) == LET o == IF off > Len(b) THEN Len(b) ELSE off
                          c == IF cnt > Len(b) - o THEN Len(b) - o ELSE cnt
                      IN SubSeq(b, o + 1, o + c)

-----------------------------------------------------------------------------
(* Bit sets on the wire.  WB bytes per word, BB bits per byte (8 and 8 in   *)
(* the implementation; smaller in the exhaustive model).                    *)
MaxBit(A) == CHOOSE x \in A : \A y \in A : y <= x
RECURSIVE SumBits(_, _, _)
SumBits(A, base, b) == IF b < 0 THEN 0 ELSE (IF base + b \in A THEN Pow2(b) ELSE 0) + SumBits(A, base, b - 1)
ByteOf(A, k, BB) == SumBits(A, k * BB, BB - 1)
BitsLen(A, WB, BB) == IF A = {} THEN 0 ELSE MaxBit(A) \div BB + 1
(* position on the wire p (0-based) holds byte number ...: full words in    *)
(* stream order, an incomplete last word least significant byte first       *)
BytePos(p, n, WB, bo) == IF p < (n \div WB) * WB /\ bo = "B" THEN (p \div WB) * WB + (WB - 1 - (p % WB)) ELSE p
BitsBody(A, WB, BB, bo) == LET n == BitsLen(A, WB, BB) IN [q \in 1..n |-> ByteOf(A, BytePos(q - 1, n, WB, bo), BB)]
BitsEnc(A, bo) == LET b == BitsBody(A, 8, 8, bo) IN SizeEnc(Len(b), bo) \o b
BitsOfByte(v, BB) == {b \in 0..BB-1 : (v \div Pow2(b)) % 2 = 1}
BitsUnbody(s, WB, BB, bo) == UNION {{BytePos(q - 1, Len(s), WB, bo) * BB + b : b \in BitsOfByte(s[q], BB)} : q \in 1..Len(s)}
BitsDec(s, bo) == LET h == SizeDec(s, bo) IN
  IF ~h.ok \/ h.n = -1 \/ h.n > Len(s) - h.used THEN [ok |-> FALSE, set |-> {}, used |-> 0]
  ELSE [ok |-> TRUE, set |-> BitsUnbody(SubSeq(s, h.used + 1, h.used + h.n), 8, 8, bo), used |-> h.used + h.n]
-----------------------------------------------------------------------------
(* Status: [type 0..3, msg, stack] *)
StatusEnc(t, m, k, bo) == IF t = 0 THEN <<255>> ELSE <<t>> \o StrEnc(m, bo) \o StrEnc(k, bo)
=============================================================================
