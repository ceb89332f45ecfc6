------------------------------ MODULE ValueBMC ------------------------------
EXTENDS ValueB
CONSTANTS Steps, NIds
Ids == {<<>>, <<84>>, <<85>>}
IdsN == {i \in Ids : i # <<85>> \/ NIds = 3}
VARIABLES b, last, k
vars == <<b, last, k>>
a1 == <<97>>  b1 == <<98>>
Names == {a1, b1}
Byte == [k |-> "s", t |-> "byte", max |-> 0]
Arr == [k |-> "sa", t |-> "byte", b |-> "v", n |-> 0]
Leaf2 == {<<Byte, <<1>>>>, <<Byte, <<2>>>>, <<Arr, <<>>>>, <<Arr, <<<<3>>>>>>}
RECURSIVE Paths(_, _)
Paths(n, p) == {p} \cup UNION {IF n.c[x].k = "st" THEN Paths(n.c[x], Append(p, x)) ELSE {} : x \in DOMAIN n.c}
Init == b \in {NewNode(i) : i \in IdsN} /\ last = <<>> /\ k = 0
Next == k < Steps /\ k' = k + 1 /\ \E p \in {q \in Paths(b, <<>>) : Len(q) < 2}, x \in Names :
  LET n == AtPath(b, p) IN
  \/ \E y \in Leaf2 : LeafOk(n, x) /\ b' = PutPath(b, p, AddLeaf(n, x, y[1], y[2])) /\ last' = <<"leaf", p, x, y[1], y[2]>>
  \/ \E i \in IdsN : NestOk(n, x) /\ b' = PutPath(b, p, AddNest(n, x, i)) /\ last' = <<"nest", p, x, i>>
Spec == Init /\ [][Next]_vars
View == <<b, last, k>>
(* what was said last is there; everything else is as before *)
RECURSIVE Get(_, _, _), Arrays(_)
Get(t, v, p) == IF p = <<>> THEN <<t, v>> ELSE LET i == CHOOSE i \in 1..Len(t.n) : t.n[i] = p[1] IN Get(t.f[i], v.f[i], Tail(p))
Arrays(t) == IF t.k = "st" THEN \E i \in 1..Len(t.f) : Arrays(t.f[i]) ELSE t.k = "sa"
Built == WfT(TypeOfN(b)) /\ Wf(TypeOfN(b), ValOfN(b)) /\ NamesOk(b)
  /\ \A i, j \in 1..Len(TypeOfN(b).n) : i < j => LessS(TypeOfN(b).n[i], TypeOfN(b).n[j])
LastWins == last = <<>> \/ LET g == Get(TypeOfN(b), ValOfN(b), Append(last[2], last[3])) IN
  IF last[1] = "leaf" THEN g = <<last[4], last[5]>> ELSE g[1].k = "st" /\ g[1].id = (IF last[4] = <<>> THEN StructureId ELSE last[4])
Cloned == IF Arrays(TypeOfN(b)) THEN ~CanFill(NewNode(<<>>), TypeOfN(b))
  ELSE LET c == Fill(NewNode(TypeOfN(b).id), TypeOfN(b), ValOfN(b)) IN TypeOfN(c) = TypeOfN(b) /\ ValOfN(c) = ValOfN(b)
Frame == [][\A p \in Paths(b, <<>>), x \in Names : (Has1(AtPath(b, p).c, x) /\ <<p, x>> # <<last'[2], last'[3]>>) =>
   (Has1(AtPath(b', p).c, x) /\ (AtPath(b, p).c[x].k = "leaf" => AtPath(b', p).c[x] = AtPath(b, p).c[x]))]_vars
=============================================================================
