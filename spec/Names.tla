------------------------------- MODULE Names --------------------------------
(* Names, classes and codes: the scalar types, the kinds of fields, alarm    *)
(* severities and status; the member of a union meant for a kind of value;   *)
(* data created from a type.                                                 *)
EXTENDS PVTypes
Order == <<"boolean","byte","short","int","long","ubyte","ushort","uint","ulong","float","double","string">>
ScName(t) == CASE t = "boolean" -> <<98,111,111,108,101,97,110>> [] t = "byte" -> <<98,121,116,101>> [] t = "short" -> <<115,104,111,114,116>>
  [] t = "int" -> <<105,110,116>> [] t = "long" -> <<108,111,110,103>> [] t = "ubyte" -> <<117,98,121,116,101>> [] t = "ushort" -> <<117,115,104,111,114,116>>
  [] t = "uint" -> <<117,105,110,116>> [] t = "ulong" -> <<117,108,111,110,103>> [] t = "float" -> <<102,108,111,97,116>> [] t = "double" -> <<100,111,117,98,108,101>>
  [] t = "string" -> <<115,116,114,105,110,103>>
SCALAR == <<115,99,97,108,97,114>>
ARRAY == <<65,114,114,97,121>>
KindNames == <<SCALAR, SCALAR \o ARRAY, StructureId, StructureId \o ARRAY, UnionId, UnionId \o ARRAY>>
IsCode(n) == n \in 0..(Len(Order) - 1)
NameOfCode(n) == ScName(Order[n + 1])
CodeOf(s) == LET I == {n \in 0..(Len(Order) - 1) : NameOfCode(n) = s} IN IF I = {} THEN -1 ELSE CHOOSE n \in I : TRUE
Signed == {"byte", "short", "int", "long"}
Unsigned == {"ubyte", "ushort", "uint", "ulong"}
Class(n) == LET t == IF IsCode(n) THEN Order[n + 1] ELSE "none" IN
  [int |-> t \in Signed \cup Unsigned, uint |-> t \in Unsigned, num |-> t \in Signed \cup Unsigned \cup {"float", "double"}, prim |-> t \in ScalarTypes \ {"string"}]

Severities == << <<78,79,78,69>>, <<77,73,78,79,82>>, <<77,65,74,79,82>>, <<73,78,86,65,76,73,68>>, <<85,78,68,69,70,73,78,69,68>> >>
Statuses == << <<78,79,78,69>>, <<68,69,86,73,67,69>>, <<68,82,73,86,69,82>>, <<82,69,67,79,82,68>>, <<68,66>>, <<67,79,78,70>>, <<85,78,68,69,70,73,78,69,68>>, <<67,76,73,69,78,84>> >>

(* the member of the union u meant for a value of kind k ("s", "sa") and     *)
(* element type s: the first of exactly that, else the first of the kind     *)
Least(I) == CHOOSE i \in I : \A j \in I : i <= j
Guess(u, k, s) ==
  LET J == {i \in 1..Len(u.f) : u.f[i].k = k}  I == {i \in J : u.f[i].t = s} IN
  IF I # {} THEN Least(I) - 1 ELSE IF J # {} THEN Least(J) - 1 ELSE -1

(* a structure made of given parts *)
Made(ns, ts) == [k |-> "st", id |-> StructureId, n |-> ns, f |-> ts]
(* numbers of the fields of a tree whose root has number n *)
RECURSIVE Numbers(_, _)
Numbers(t, n) == <<n>> \o (IF t.k # "st" THEN <<>> ELSE Cat([i \in 1..Len(t.f) |-> Numbers(t.f[i], n + 1 + NFs(t.f, i - 1))]))
=============================================================================
