------------------------------ MODULE PVTypes -------------------------------
(* Types and values of pvData, their wire format, numbering and masks.      *)
(*                                                                          *)
(* Types (records, field k is the kind):                                    *)
(*   [k "s", t, max]       scalar; max > 0: bounded string                  *)
(*   [k "sa", t, b, n]     scalar array; b = "v" variable, "b"ounded, "f"ixed *)
(*   [k "st", id, n, f]    structure: identifier, names, field types        *)
(*   [k "sta", e]          array of structures                              *)
(*   [k "u", id, n, f]     union; no members: the variant (any) union       *)
(*   [k "ua", e]           array of unions                                  *)
(* Names and identifiers are byte strings.                                  *)
(* Values: scalar = its big-endian bytes (string: its bytes); scalar array =*)
(* sequence of those; structure = [f |-> sequence of values]; union =       *)
(* [sel |-> -1] or [sel, v]; variant = [none |-> TRUE] or [t, v]; array of  *)
(* structures/unions = sequence of values or [null |-> TRUE].               *)
EXTENDS Wire
ScalarTypes == {"boolean","byte","short","int","long","ubyte","ushort","uint","ulong","float","double","string"}
Width(t) == CASE t \in {"boolean","byte","ubyte"} -> 1 [] t \in {"short","ushort"} -> 2
              [] t \in {"int","uint","float"} -> 4 [] t \in {"long","ulong","double"} -> 8 [] OTHER -> 0
Code(t) == CASE t = "boolean" -> 0 [] t = "byte" -> 32 [] t = "short" -> 33 [] t = "int" -> 34 [] t = "long" -> 35
             [] t = "ubyte" -> 36 [] t = "ushort" -> 37 [] t = "uint" -> 38 [] t = "ulong" -> 39
             [] t = "float" -> 66 [] t = "double" -> 67 [] t = "string" -> 96
Null == [null |-> TRUE]
IsNull(v) == v = Null
Empty == [none |-> TRUE]        \* the variant union holding nothing
Unsel == [sel |-> -1]
IsVariant(t) == t.k = "u" /\ t.n = <<>>
StructureId == <<115,116,114,117,99,116,117,114,101>>
UnionId == <<117,110,105,111,110>>
AnyId == <<97,110,121>>
Variant == [k |-> "u", id |-> AnyId, n |-> <<>>, f |-> <<>>]
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE NF(_), NFs(_, _)
NFs(f, i) == IF i = 0 THEN 0 ELSE NFs(f, i - 1) + NF(f[i])     \* fields in the first i sub-trees
NF(t) == IF t.k = "st" THEN 1 + NFs(t.f, Len(t.f)) ELSE 1

RECURSIVE Default(_)
Default(t) == CASE t.k = "s" -> Zeros(Width(t.t))
  [] t.k = "sa" -> IF t.b = "f" THEN [i \in 1..t.n |-> Zeros(Width(t.t))] ELSE <<>>
  [] t.k = "sta" -> <<>>  [] t.k = "ua" -> <<>>
  [] t.k = "st" -> [f |-> [i \in 1..Len(t.f) |-> Default(t.f[i])]]
  [] t.k = "u" -> IF IsVariant(t) THEN Empty ELSE Unsel

(* names accepted for fields: letters, digits, underscores, not starting with a digit *)
NameChar(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c = 95
NameOk(n) == n # <<>> /\ n[1] \notin 48..57 /\ \A i \in 1..Len(n) : NameChar(n[i])
DistinctNames(ns) == \A i, j \in 1..Len(ns) : ns[i] = ns[j] => i = j
(* a well-formed type *)
RECURSIVE WfT(_)
WfT(t) == CASE t.k = "s" -> t.t \in ScalarTypes /\ t.max >= 0 /\ (t.t # "string" => t.max = 0)
  [] t.k = "sa" -> t.t \in ScalarTypes /\ t.b \in {"v", "b", "f"} /\ t.n >= 0
  [] t.k \in {"st", "u"} -> /\ Len(t.n) = Len(t.f) /\ t.id # <<>> /\ DistinctNames(t.n)
       /\ \A i \in 1..Len(t.n) : NameOk(t.n[i]) /\ WfT(t.f[i])
       /\ t.k = "u" /\ t.n = <<>> => t.id = AnyId
  [] t.k = "sta" -> t.e.k = "st" /\ WfT(t.e)
  [] t.k = "ua" -> t.e.k = "u" /\ WfT(t.e)
  [] OTHER -> FALSE
(* v is a value of type t (a failed decoding may leave a fixed array empty)  *)
RECURSIVE Wf(_, _)
WfScalar(t, v) == IF t = "string" THEN \A i \in 1..Len(v) : v[i] \in 0..255 ELSE Len(v) = Width(t)
Wf(t, v) == CASE t.k = "s" -> WfScalar(t.t, v) /\ (t.max > 0 => Len(v) <= t.max)
  [] t.k = "sa" -> /\ \A i \in 1..Len(v) : WfScalar(t.t, v[i])
                   /\ t.b = "b" => Len(v) <= t.n
                   /\ t.b = "f" => Len(v) \in {0, t.n}
  [] t.k = "st" -> Len(v.f) = Len(t.f) /\ \A i \in 1..Len(t.f) : Wf(t.f[i], v.f[i])
  [] t.k \in {"sta", "ua"} -> \A i \in 1..Len(v) : IsNull(v[i]) \/ Wf(t.e, v[i])
  [] t.k = "u" -> IF IsVariant(t) THEN v = Empty \/ Wf(v.t, v.v)
                  ELSE v = Unsel \/ (v.sel \in 0..Len(t.f)-1 /\ Wf(t.f[v.sel + 1], v.v))
-----------------------------------------------------------------------------
(* Wire format of types *)
RECURSIVE EncT(_, _)
EncFields(t, bo) == Cat([i \in 1..Len(t.f) |-> StrEnc(t.n[i], bo) \o EncT(t.f[i], bo)])
EncT(t, bo) ==
  CASE t.k = "none" -> <<255>>
    [] t.k = "s" -> IF t.max > 0 THEN <<131>> \o SizeEnc(t.max, bo) ELSE <<Code(t.t)>>
    [] t.k = "sa" -> IF t.b = "v" THEN <<8 + Code(t.t)>>
                     ELSE <<(IF t.b = "b" THEN 16 ELSE 24) + Code(t.t)>> \o SizeEnc(t.n, bo)
    [] t.k = "st" -> <<128>> \o StrEnc(IF t.id = StructureId THEN <<>> ELSE t.id, bo) \o SizeEnc(Len(t.f), bo) \o EncFields(t, bo)
    [] t.k = "sta" -> <<136>> \o EncT(t.e, bo)
    [] t.k = "u" -> IF IsVariant(t) THEN <<130>>
                    ELSE <<129>> \o StrEnc(IF t.id = UnionId THEN <<>> ELSE t.id, bo) \o SizeEnc(Len(t.f), bo) \o EncFields(t, bo)
    [] t.k = "ua" -> IF IsVariant(t.e) THEN <<138>> ELSE <<137>> \o EncT(t.e, bo)
(* Wire format of values *)
RECURSIVE Enc(_, _, _)
EncScalar(t, v, bo) == IF t = "string" THEN StrEnc(v, bo) ELSE Ord(bo, v)
Enc(t, v, bo) ==
  CASE t.k = "s" -> EncScalar(t.t, v, bo)
    [] t.k = "sa" -> (IF t.b = "f" THEN <<>> ELSE SizeEnc(Len(v), bo)) \o Cat([i \in 1..Len(v) |-> EncScalar(t.t, v[i], bo)])
    [] t.k = "st" -> Cat([i \in 1..Len(t.f) |-> Enc(t.f[i], v.f[i], bo)])
    [] t.k \in {"sta", "ua"} -> SizeEnc(Len(v), bo) \o Cat([i \in 1..Len(v) |-> IF v[i] = Null THEN <<0>> ELSE <<1>> \o Enc(t.e, v[i], bo)])
    [] t.k = "u" -> IF IsVariant(t) THEN (IF v = Empty THEN <<255>> ELSE EncT(v.t, bo) \o Enc(v.t, v.v, bo))
                    ELSE IF v = Unsel THEN <<255>> ELSE SizeEnc(v.sel, bo) \o Enc(t.f[v.sel + 1], v.v, bo)
-----------------------------------------------------------------------------
(* Decoding: result [ok, v, u] with u the bytes used.                       *)
Fail == [ok |-> FALSE, v |-> 0, u |-> 0]
Got(v, u) == [ok |-> TRUE, v |-> v, u |-> u]
RECURSIVE DecT(_, _), DecFields(_, _, _, _, _, _)
DecFields(s, bo, cnt, ns, fs, used) ==
  IF cnt = 0 THEN Got([n |-> ns, f |-> fs], used)
  ELSE LET a == StrDec(Drop(s, used), bo) IN
       IF ~a.ok THEN Fail
       ELSE LET b == DecT(Drop(s, used + a.used), bo) IN
            IF ~b.ok \/ b.v.k = "none" THEN Fail
            ELSE DecFields(s, bo, cnt - 1, Append(ns, a.b), Append(fs, b.v), used + a.used + b.u)
DecCompound(s, bo, kind, dflt) ==
  LET a == StrDec(Drop(s, 1), bo) IN
  IF ~a.ok THEN Fail
  ELSE LET h == SizeDec(Drop(s, 1 + a.used), bo) IN
       IF ~h.ok \/ h.n = -1 \/ h.n > Len(s) THEN Fail
       ELSE LET r == DecFields(s, bo, h.n, <<>>, <<>>, 1 + a.used + h.used) IN
            IF ~r.ok \/ ~DistinctNames(r.v.n) \/ (\E i \in 1..Len(r.v.n) : ~NameOk(r.v.n[i])) THEN Fail
            ELSE IF kind = "u" /\ h.n = 0 /\ a.b # AnyId THEN Fail
            ELSE Got([k |-> kind, id |-> IF a.b = <<>> THEN dflt ELSE a.b, n |-> r.v.n, f |-> r.v.f], r.u)
(* the low three bits are ignored for boolean and string *)
IsScalarCode(c) == c \in 0..7 \cup 32..39 \cup {66, 67} \cup 96..103
ScalarOf(c) == IF c < 8 THEN "boolean" ELSE IF c >= 96 THEN "string" ELSE CHOOSE t \in ScalarTypes : Code(t) = c
DecT(s, bo) ==
  IF s = <<>> THEN Fail
  ELSE LET c == s[1] IN
  IF c = 255 THEN Got([k |-> "none"], 1)
  ELSE IF IsScalarCode(c) THEN Got([k |-> "s", t |-> ScalarOf(c), max |-> 0], 1)
  ELSE IF c < 128 /\ (c \div 8) % 4 = 1 /\ IsScalarCode(c - 8) THEN Got([k |-> "sa", t |-> ScalarOf(c - 8), b |-> "v", n |-> 0], 1)
  ELSE IF c < 128 /\ (c \div 8) % 4 \in {2, 3} THEN
       LET m == (c \div 8) % 4  h == SizeDec(Drop(s, 1), bo) IN
       IF ~IsScalarCode(c - 8 * m) \/ ~h.ok \/ h.n = -1 THEN Fail      \* (a null bound is no bound)
       ELSE Got([k |-> "sa", t |-> ScalarOf(c - 8 * m), b |-> IF m = 2 THEN "b" ELSE "f", n |-> h.n], 1 + h.used)
  ELSE IF c = 128 THEN DecCompound(s, bo, "st", StructureId)
  ELSE IF c = 129 THEN DecCompound(s, bo, "u", UnionId)
  ELSE IF c = 130 THEN Got(Variant, 1)
  ELSE IF c = 131 THEN LET h == SizeDec(Drop(s, 1), bo) IN
       IF ~h.ok \/ h.n < 1 THEN Fail ELSE Got([k |-> "s", t |-> "string", max |-> h.n], 1 + h.used)
  ELSE IF c = 136 THEN LET e == DecT(Drop(s, 1), bo) IN IF e.ok /\ e.v.k = "st" THEN Got([k |-> "sta", e |-> e.v], 1 + e.u) ELSE Fail
  ELSE IF c = 137 THEN LET e == DecT(Drop(s, 1), bo) IN IF e.ok /\ e.v.k = "u" THEN Got([k |-> "ua", e |-> e.v], 1 + e.u) ELSE Fail
  ELSE IF c = 138 THEN Got([k |-> "ua", e |-> Variant], 1)
  ELSE Fail
RECURSIVE Dec(_, _, _), DecSeq(_, _, _, _, _), DecElems(_, _, _, _, _), DecStruct(_, _, _, _, _)
DecScalar(t, s, bo) ==
  IF t = "string" THEN LET d == StrDec(s, bo) IN IF d.ok THEN Got(d.b, d.used) ELSE Fail
  ELSE IF Len(s) < Width(t) THEN Fail ELSE Got(Ord(bo, SubSeq(s, 1, Width(t))), Width(t))
(* n scalars *)
DecSeq(t, s, bo, n, acc) ==
  IF n = 0 THEN Got(acc.v, acc.u)
  ELSE LET d == DecScalar(t, Drop(s, acc.u), bo) IN
       IF ~d.ok THEN Fail ELSE DecSeq(t, s, bo, n - 1, [v |-> Append(acc.v, d.v), u |-> acc.u + d.u])
(* n possibly null elements of type e *)
DecElems(e, s, bo, n, acc) ==
  IF n = 0 THEN Got(acc.v, acc.u)
  ELSE LET r == Drop(s, acc.u) IN
       IF r = <<>> THEN Fail
       ELSE IF r[1] = 0 THEN DecElems(e, s, bo, n - 1, [v |-> Append(acc.v, Null), u |-> acc.u + 1])
       ELSE LET d == Dec(e, Drop(r, 1), bo) IN
            IF ~d.ok THEN Fail ELSE DecElems(e, s, bo, n - 1, [v |-> Append(acc.v, d.v), u |-> acc.u + 1 + d.u])
DecStruct(t, s, bo, i, acc) ==
  IF i > Len(t.f) THEN Got([f |-> acc.v], acc.u)
  ELSE LET d == Dec(t.f[i], Drop(s, acc.u), bo) IN
       IF ~d.ok THEN Fail ELSE DecStruct(t, s, bo, i + 1, [v |-> Append(acc.v, d.v), u |-> acc.u + d.u])
Z0(u) == [v |-> <<>>, u |-> u]
Dec(t, s, bo) ==
  CASE t.k = "s" -> LET d == DecScalar(t.t, s, bo) IN IF d.ok /\ (t.max > 0 => Len(d.v) <= t.max) THEN d ELSE Fail
    [] t.k = "sa" -> IF t.b = "f" THEN (IF t.n > Len(s) THEN Fail ELSE DecSeq(t.t, s, bo, t.n, Z0(0)))
                     ELSE LET h == SizeDec(s, bo) IN
                          IF ~h.ok \/ h.n = -1 \/ h.n > Len(s) \/ (t.b = "b" /\ h.n > t.n) THEN Fail ELSE DecSeq(t.t, s, bo, h.n, Z0(h.used))
    [] t.k = "st" -> DecStruct(t, s, bo, 1, Z0(0))
    [] t.k \in {"sta", "ua"} -> LET h == SizeDec(s, bo) IN IF ~h.ok \/ h.n = -1 \/ h.n > Len(s) THEN Fail ELSE DecElems(t.e, s, bo, h.n, Z0(h.used))
    [] t.k = "u" -> IF IsVariant(t)
         THEN LET a == DecT(s, bo) IN IF ~a.ok THEN Fail ELSE IF a.v.k = "none" THEN Got(Empty, 1)
              ELSE LET d == Dec(a.v, Drop(s, a.u), bo) IN IF d.ok THEN Got([t |-> a.v, v |-> d.v], a.u + d.u) ELSE Fail
         ELSE LET h == SizeDec(s, bo) IN IF ~h.ok THEN Fail ELSE IF h.n = -1 THEN Got(Unsel, h.used)
              ELSE IF h.n >= Len(t.f) THEN Fail
              ELSE LET d == Dec(t.f[h.n + 1], Drop(s, h.used), bo) IN IF d.ok THEN Got([sel |-> h.n, v |-> d.v], h.used + d.u) ELSE Fail
-----------------------------------------------------------------------------
(* Field numbering: the sub-tree at offset base of a structure              *)
Range(base, t) == base..(base + NF(t) - 1)
OffsetOf(t, base, i) == base + 1 + NFs(t.f, i - 1)          \* offset of the i-th sub-field
(* Partial encoding under a changed mask *)
RECURSIVE EncM(_, _, _, _, _), UpdM(_, _, _, _, _)
EncM(t, v, m, base, bo) ==
  IF m \cap Range(base, t) = {} THEN <<>>
  ELSE IF base \in m THEN Enc(t, v, bo)
  ELSE Cat([i \in 1..Len(t.f) |-> EncM(t.f[i], v.f[i], m, OffsetOf(t, base, i), bo)])
(* old with the selected fields replaced by those of new *)
UpdM(t, old, new, m, base) ==
  IF m \cap Range(base, t) = {} THEN old
  ELSE IF base \in m THEN new
  ELSE [f |-> [i \in 1..Len(t.f) |-> UpdM(t.f[i], old.f[i], new.f[i], m, OffsetOf(t, base, i))]]
(* decoding a partial update s over old *)
RECURSIVE DecM(_, _, _, _, _, _), DecMs(_, _, _, _, _, _, _, _)
DecMs(t, old, s, m, base, bo, i, acc) ==
  IF i > Len(t.f) THEN Got([f |-> acc.v], acc.u)
  ELSE LET d == DecM(t.f[i], old.f[i], Drop(s, acc.u), m, OffsetOf(t, base, i), bo) IN
       IF ~d.ok THEN Fail ELSE DecMs(t, old, s, m, base, bo, i + 1, [v |-> Append(acc.v, d.v), u |-> acc.u + d.u])
DecM(t, old, s, m, base, bo) ==
  IF m \cap Range(base, t) = {} THEN Got(old, 0)
  ELSE IF base \in m THEN Dec(t, s, bo)
  ELSE DecMs(t, old, s, m, base, bo, 1, Z0(0))
(* leaves (offsets without sub-fields) that m selects *)
RECURSIVE Leaves(_, _), LeafSel(_, _, _), Compress(_, _, _)
Leaves(t, base) == IF t.k # "st" THEN {base} ELSE IF t.f = <<>> THEN {base} ELSE UNION {Leaves(t.f[i], OffsetOf(t, base, i)) : i \in 1..Len(t.f)}
LeafSel(t, m, base) == IF base \in m THEN Leaves(t, base)
   ELSE IF t.k # "st" THEN {} ELSE UNION {LeafSel(t.f[i], m, OffsetOf(t, base, i)) : i \in 1..Len(t.f)}
(* the minimal mask selecting the same leaves *)
Compress(t, m, base) ==
  IF base \in m \/ (t.k = "st" /\ t.f # <<>> /\ LeafSel(t, m, base) = Leaves(t, base)) THEN {base}
  ELSE IF t.k # "st" THEN {} ELSE UNION {Compress(t.f[i], m, OffsetOf(t, base, i)) : i \in 1..Len(t.f)}
-----------------------------------------------------------------------------
(* Equality of contents: bytes, except that floating point compares as IEEE *)
(* numbers (both zeros are equal, a NaN equals nothing).                    *)
FMax(t) == IF t = "float" THEN [e |-> 127, m |-> 128] ELSE [e |-> 127, m |-> 240]
AllZero(b) == \A i \in 1..Len(b) : b[i] = 0
IsNaN(t, b) == LET f == FMax(t) IN b[1] % 128 = f.e /\ b[2] >= f.m /\ ~(b[2] = f.m /\ \A i \in 3..Len(b) : b[i] = 0)
IsZero(b) == b[1] % 128 = 0 /\ \A i \in 2..Len(b) : b[i] = 0
EqS(t, a, b) == IF t \in {"float", "double"} THEN (a = b /\ ~IsNaN(t, a)) \/ (IsZero(a) /\ IsZero(b)) ELSE a = b
RECURSIVE EqV(_, _, _)
EqV(t, a, b) ==
  CASE t.k = "s" -> EqS(t.t, a, b)
    [] t.k = "sa" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqS(t.t, a[i], b[i])
    [] t.k = "st" -> \A i \in 1..Len(t.f) : EqV(t.f[i], a.f[i], b.f[i])
    [] t.k \in {"sta", "ua"} -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : (IsNull(a[i]) /\ IsNull(b[i])) \/ (~IsNull(a[i]) /\ ~IsNull(b[i]) /\ EqV(t.e, a[i], b[i]))
    [] t.k = "u" -> IF IsVariant(t) THEN (a = Empty /\ b = Empty) \/ (a # Empty /\ b # Empty /\ a.t = b.t /\ EqV(a.t, a.v, b.v))
                    ELSE a.sel = b.sel /\ (a.sel = -1 \/ EqV(t.f[a.sel + 1], a.v, b.v))
=============================================================================
