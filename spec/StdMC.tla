------------------------------- MODULE StdMC --------------------------------
(* Every standard structure: properties are added one by one.                *)
EXTENDS StdTypes
VARIABLES k, t, ps
Init == /\ k \in {"scalar", "scalarArray", "structureArray", "regUnion", "variantUnion", "unionArray", "enumerated"} /\ ps = {}
        /\ t \in (CASE k = "scalar" -> {Sc(x) : x \in ScalarTypes} [] k = "scalarArray" -> {Sa(x) : x \in ScalarTypes} [] k = "enumerated" -> {EnumT}
             [] k = "structureArray" -> {[k |-> "sta", e |-> Alarm]} [] k = "variantUnion" -> {Variant}
             [] k = "regUnion" -> {[k |-> "u", id |-> UnionId, n |-> <<<<97>>>>, f |-> <<Sc("int")>>]} [] OTHER -> {[k |-> "ua", e |-> Variant]})
Next == \E i \in 1..Len(Props) : Props[i] \notin ps /\ CanHave(k, t, ps \cup {Props[i]}) /\ ps' = ps \cup {Props[i]} /\ UNCHANGED <<k, t>>
Spec == Init /\ [][Next]_<<k, t, ps>>
WellFormed == LET y == StdType(k, t, ps) IN WfT(y) /\ Wf(y, Default(y)) /\ Len(y.n) = 1 + Cardinality(ps) /\ y.f[1] = t /\ y.n[1] = VALUE
(* adding a property keeps what was there, in its order *)
Grows == \A i \in 1..Len(Props) : CanHave(k, t, ps \cup {Props[i]}) =>
  LET a == StdType(k, t, ps)  b == StdType(k, t, ps \cup {Props[i]})  S == {j \in 1..Len(b.n) : b.n[j] # PropName(Props[i]) \/ Props[i] \in ps} IN
  Cardinality(S) = Len(a.n) /\ \A j \in S : LET m == Cardinality({x \in S : x <= j}) IN a.n[m] = b.n[j] /\ a.f[m] = b.f[j]
(* the limits of an alarm are of the type of the value *)
Limits == "valueAlarm" \in ps /\ t.k \in {"s", "sa"} => LET y == StdType(k, t, ps)  a == y.f[Len(y.f)] IN t.t = "boolean" \/ \A i \in 2..5 : a.f[i] = Sc(t.t)
=============================================================================
