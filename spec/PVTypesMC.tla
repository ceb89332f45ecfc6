----------------------------- MODULE PVTypesMC ------------------------------
(* Laws of the value, type and mask model, for all small types and values:  *)
(* encodings are exact, prefix-free and reversible; malformed bytes never   *)
(* decode to an ill-formed value; masks and their compression.              *)
EXTENDS PVTypes, TLC
CONSTANTS Deep
A == <<97>>  B == <<98>>
S(t) == [k |-> "s", t |-> t, max |-> 0]
SA(t, b, n) == [k |-> "sa", t |-> t, b |-> b, n |-> n]
Base0 == {S("byte"), S("short"), S("string"), [k |-> "s", t |-> "string", max |-> 1], SA("byte", "v", 0), SA("short", "b", 1), SA("byte", "f", 2)}
Few0 == {S("byte"), S("string")}
St(id, ts) == [k |-> "st", id |-> id, n |-> [i \in 1..Len(ts) |-> IF i = 1 THEN A ELSE IF i = 2 THEN B ELSE <<97, 98>>], f |-> ts]
Un(id, ts) == [k |-> "u", id |-> id, n |-> [i \in 1..Len(ts) |-> IF i = 1 THEN A ELSE B], f |-> ts]
Seqs2(X) == {<<x>> : x \in X} \cup {<<x, y>> : x, y \in X}
Structs1 == {St(StructureId, s) : s \in Seqs2(Few0) \cup {<<>>}} \cup {St(A, <<S("byte")>>), St(A, <<SA("byte", "b", 1), SA("string", "v", 0)>>)}
Unions1 == {Un(UnionId, s) : s \in Seqs2(Few0)} \cup {Un(A, <<S("byte")>>), Un(A, <<SA("string", "v", 0)>>), Variant}
Small1 == {St(StructureId, <<S("byte")>>), St(A, <<S("byte"), S("byte")>>), St(StructureId, <<>>), Un(UnionId, <<S("byte"), S("string")>>), Variant}
Arrays1 == {[k |-> "sta", e |-> e] : e \in {t \in Small1 : t.k = "st"}} \cup {[k |-> "ua", e |-> e] : e \in {t \in Small1 : t.k = "u"}}
Structs2 == {St(StructureId, s) : s \in Seqs2(Small1 \cup {S("byte")})}
Structs3 == {St(B, <<x, y>>) : x, y \in {S("byte"), St(StructureId, <<S("byte"), S("byte")>>), St(A, <<St(B, <<S("byte")>>), S("string")>>), St(B, <<St(B, <<>>)>>)}}
Types == Base0 \cup Structs1 \cup Unions1 \cup Arrays1 \cup (IF Deep THEN Structs2 \cup Structs3 ELSE {St(StructureId, <<x, S("byte")>>) : x \in Small1} \cup {St(B, <<St(A, <<S("byte"), S("byte")>>), S("byte"), St(B, <<>>)>>)})

Bytes == {0, 255}
ScalarVals(t) == IF t = "string" THEN {<<>>, <<97>>, <<255, 97>>} ELSE IF Width(t) = 1 THEN {<<b>> : b \in Bytes} ELSE {<<1, 2>>, <<255, 0>>}
RECURSIVE Vals(_), Prod(_, _)
Prod(fs, i) == IF i = 0 THEN {<<>>} ELSE {Append(p, v) : p \in Prod(fs, i - 1), v \in Vals(fs[i])}
VariantVals == {Empty, [t |-> S("byte"), v |-> <<7>>], [t |-> SA("byte", "b", 1), v |-> <<>>], [t |-> S("string"), v |-> <<>>]}
Vals(t) == {v \in
  CASE t.k = "s" -> ScalarVals(t.t)
    [] t.k = "sa" -> {<<>>} \cup {<<x>> : x \in ScalarVals(t.t)} \cup {<<x, y>> : x, y \in ScalarVals(t.t)}
    [] t.k = "st" -> {[f |-> p] : p \in Prod(t.f, Len(t.f))}
    [] t.k \in {"sta", "ua"} -> LET E == Vals(t.e) \cup {Null} IN {<<>>} \cup {<<x>> : x \in E} \cup {<<x, y>> : x, y \in E}
    [] t.k = "u" -> IF IsVariant(t) THEN VariantVals
                    ELSE {Unsel} \cup UNION {{[sel |-> i - 1, v |-> x] : x \in Vals(t.f[i])} : i \in 1..Len(t.f)}
  : Wf(t, v) /\ (t.k = "sa" /\ t.b = "f" => Len(v) = t.n)}

VARIABLES ph, t, bo, v, old, m
vars == <<ph, t, bo, v, old, m>>
Init == ph = 0 /\ t \in Types /\ bo \in {"B", "L"} /\ v = 0 /\ old = 0 /\ m = {}
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<t, bo>> /\ v' \in Vals(t) /\ old' \in (IF t.k = "st" /\ Len(t.f) > 0 THEN {Default(t), v'} ELSE {Default(t)})
        /\ m' \in (IF t.k = "st" THEN SUBSET (0..NF(t) - 1) ELSE {{0}})
Spec == Init /\ [][Next]_vars
E == Enc(t, v, bo)
TypeLaws == ph = 0 =>
  LET T == EncT(t, bo) IN
  /\ DecT(T, bo) = Got(t, Len(T)) /\ DecT(T \o <<1, 255>>, bo) = Got(t, Len(T))
  /\ \A k \in 0..Len(T) - 1 : ~DecT(SubSeq(T, 1, k), bo).ok
  /\ \A o \in Types : EncT(o, bo) = T => o = t
  /\ Wf(t, Default(t))
ValueLaws == ph = 1 =>
  /\ Wf(t, v) /\ Dec(t, E, bo) = Got(v, Len(E)) /\ Dec(t, E \o <<255, 0>>, bo) = Got(v, Len(E))
  /\ \A k \in 0..Len(E) - 1 : ~Dec(t, SubSeq(E, 1, k), bo).ok
  /\ Len(E) < 12 => \A k \in 1..Len(E) : \A b \in {0, 1, 2, 32, 255} : LET d == Dec(t, [E EXCEPT ![k] = b], bo) IN d.ok => Wf(t, d.v)
MaskLaws == ph = 1 =>
  LET p == EncM(t, v, m, 0, bo)  u == UpdM(t, old, v, m, 0) IN
  /\ 0 \in m => p = E /\ u = v
  /\ m = {} => p = <<>> /\ u = old
  /\ DecM(t, old, p \o <<9>>, m, 0, bo) = Got(u, Len(p))
  /\ UpdM(t, u, v, m, 0) = u
  /\ LET c == Compress(t, m, 0) IN
     /\ LeafSel(t, c, 0) = LeafSel(t, m, 0) /\ Compress(t, c, 0) = c
     /\ EncM(t, v, c, 0, bo) = p /\ UpdM(t, old, v, c, 0) = u
     /\ \A o \in SUBSET (0..NF(t) - 1) : LeafSel(t, o, 0) = LeafSel(t, m, 0) => Cardinality(c) <= Cardinality(o)
     /\ \A x \in c : \A y \in c : x # y => LeafSel(t, {x}, 0) \cap LeafSel(t, {y}, 0) = {}
=============================================================================
