------------------------------ MODULE NamesMC -------------------------------
(* Names are distinct and lead back to their type; classes nest; the guess   *)
(* found by one pass over the members is the one defined.                    *)
EXTENDS Names
CONSTANTS MaxMembers
VARIABLES u, k, s, i, ret
vars == <<u, k, s, i, ret>>
Some == {"int", "uint", "string"}
Member == {[k |-> "s", t |-> t, max |-> 0] : t \in Some} \cup {[k |-> "sa", t |-> t, b |-> "v", n |-> 0] : t \in Some} \cup {[k |-> "st", id |-> StructureId, n |-> <<>>, f |-> <<>>]}
Nm(n) == [j \in 1..n |-> <<96 + j>>]
Init == /\ \E n \in 0..MaxMembers : \E f \in [1..n -> Member] : u = [k |-> "u", id |-> UnionId, n |-> Nm(n), f |-> f]
        /\ k \in {"s", "sa"} /\ s \in Some \cup {"float"} /\ i = 1 /\ ret = -1
(* the pass *)
More == i <= Len(u.f)
Pass == /\ More /\ UNCHANGED <<u, k, s>>
        /\ LET m == u.f[i] IN
           IF m.k # k THEN i' = i + 1 /\ ret' = ret
           ELSE IF m.t = s THEN i' = Len(u.f) + 1 /\ ret' = i - 1
           ELSE i' = i + 1 /\ ret' = (IF ret = -1 THEN i - 1 ELSE ret)
Next == Pass
Spec == Init /\ [][Next]_vars
Laws == /\ \A n \in 0..(Len(Order) - 1) : CodeOf(NameOfCode(n)) = n
        /\ \A a, b \in 1..Len(KindNames) : KindNames[a] = KindNames[b] => a = b
        /\ \A a, b \in 1..Len(Severities) : Severities[a] = Severities[b] => a = b
        /\ \A a, b \in 1..Len(Statuses) : Statuses[a] = Statuses[b] => a = b
        /\ \A n \in -1..12 : LET c == Class(n) IN (c.uint => c.int) /\ (c.int => c.num) /\ (c.num => c.prim) /\ (c.prim => IsCode(n))
        /\ {Order[n] : n \in 1..Len(Order)} = ScalarTypes
ASSUME Laws
Found == ~More => ret = Guess(u, k, s)
(* the guess is of the kind wanted; an exact member is never passed over *)
Right == LET g == Guess(u, k, s) IN
  /\ g >= 0 => u.f[g + 1].k = k
  /\ (\E j \in 1..Len(u.f) : u.f[j].k = k) => g >= 0
  /\ (\E j \in 1..Len(u.f) : u.f[j].k = k /\ u.f[j].k \in {"s", "sa"} /\ (u.f[j].k = k => u.f[j].t = s)) => u.f[g + 1].t = s
Inv == Found /\ Right
=============================================================================
