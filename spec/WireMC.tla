------------------------------- MODULE WireMC -------------------------------
(* Laws of the primitive encodings, evaluated for every small value.        *)
EXTENDS Wire
CONSTANTS NB, WB, BB
VARIABLES a, b, bo
vars == <<a, b, bo>>
Sets == SUBSET (0..NB-1)
Init == a \in Sets /\ b \in {{}} \cup {{x} : x \in 0..NB-1} \cup {0..NB-1} /\ bo \in {"B", "L"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
E(x) == BitsBody(x, WB, BB, bo)
RoundTrip == BitsUnbody(E(a), WB, BB, bo) = a
Injective == (E(a) = E(b)) <=> (a = b)
(* shortest: no zero byte could be cut from the significant end *)
Canonical == LET n == Len(E(a)) IN a # {} => \E q \in 1..n : BytePos(q - 1, n, WB, bo) = n - 1 /\ E(a)[q] # 0
Perm == LET n == Len(E(a)) IN {BytePos(q - 1, n, WB, bo) : q \in 1..n} = 0..n-1
Sizes == {-1, 0, 1, 253, 254, 255, 256, 65535, 65536, 16777216, 2147483647}
SizeLaw == \A s \in Sizes : LET d == SizeDec(SizeEnc(s, bo) \o <<7, 9>>, bo) IN d.ok /\ d.n = s /\ d.used = Len(SizeEnc(s, bo))
SizeUnique == \A s, t \in Sizes : SizeEnc(s, bo) = SizeEnc(t, bo) => s = t
SizePrefixFree == \A s, t \in Sizes : s # t => LET x == SizeEnc(s, bo) y == SizeEnc(t, bo) IN
     ~(Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x)
TruncatedSize == \A s \in Sizes : LET x == SizeEnc(s, bo) IN \A k \in 0..Len(x)-1 : ~SizeDec(SubSeq(x, 1, k), bo).ok
StrLaw == LET s == E(a) \o E(b) d == StrDec(StrEnc(s, bo) \o E(a), bo) IN d.ok /\ d.b = s /\ d.used = Len(StrEnc(s, bo))
SliceLaw == LET s == E(0..NB-1) IN \A o \in 0..Len(s)+2, c \in 0..Len(s)+2 :
     /\ Len(Slice(s, o, c)) <= c
     /\ \A k \in 1..Len(Slice(s, o, c)) : Slice(s, o, c)[k] = s[o + k]
     /\ (o + c <= Len(s)) => Len(Slice(s, o, c)) = c
=============================================================================
