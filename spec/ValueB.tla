------------------------------- MODULE ValueB -------------------------------
(* The value builder: a tree of fields to be.                                *)
(*   [k |-> "st", id, c]  c: a function from names                           *)
(*   [k |-> "leaf", t, v] a scalar or scalar array of type t                 *)
EXTENDS PVTypes, TLC
NewNode(id) == [k |-> "st", id |-> id, c |-> <<>>]
LeafNode(t, v) == [k |-> "leaf", t |-> t, v |-> v]
Has1(f, x) == x \in DOMAIN f
(* the node at a path, and the tree with the node there replaced *)
RECURSIVE AtPath(_, _), PutPath(_, _, _)
AtPath(n, p) == IF p = <<>> THEN n ELSE AtPath(n.c[p[1]], Tail(p))
SetKid(n, x, y) == [n EXCEPT !.c = (x :> y) @@ @]
PutPath(n, p, m) == IF p = <<>> THEN m ELSE SetKid(n, p[1], PutPath(n.c[p[1]], Tail(p), m))
IsSt(n, x) == IF Has1(n.c, x) THEN n.c[x].k = "st" ELSE FALSE
(* a scalar or array may replace another, but not a structure; and a structure is continued *)
LeafOk(n, x) == ~IsSt(n, x)
NestOk(n, x) == IF Has1(n.c, x) THEN n.c[x].k = "st" ELSE TRUE
AddLeaf(n, x, t, v) == SetKid(n, x, LeafNode(t, v))
AddNest(n, x, id) == IF Has1(n.c, x) THEN SetKid(n, x, [n.c[x] EXCEPT !.id = id]) ELSE SetKid(n, x, NewNode(id))
(* all fields of a structure added to a node; only scalars and structures can be *)
RECURSIVE CanFill(_, _), Fill(_, _, _), FillI(_, _, _, _)
CanFill(n, t) == \A i \in 1..Len(t.f) : CASE t.f[i].k = "s" -> LeafOk(n, t.n[i])
  [] t.f[i].k = "st" -> NestOk(n, t.n[i]) /\ CanFill(IF Has1(n.c, t.n[i]) THEN n.c[t.n[i]] ELSE NewNode(<<>>), t.f[i])
  [] OTHER -> FALSE
FillI(n, t, v, i) == IF i > Len(t.f) THEN n ELSE
  FillI(IF t.f[i].k = "s" THEN AddLeaf(n, t.n[i], [t.f[i] EXCEPT !.max = 0], v.f[i])
        ELSE LET m == AddNest(n, t.n[i], t.f[i].id) IN SetKid(m, t.n[i], Fill(m.c[t.n[i]], t.f[i], v.f[i])), t, v, i + 1)
Fill(n, t, v) == FillI(n, t, v, 1)
(* names in the order of their bytes *)
RECURSIVE LessS(_, _), SortN(_)
LessS(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE LessS(Tail(x), Tail(y))
SortN(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s \ {x} : LessS(x, y) IN <<m>> \o SortN(s \ {m})
RECURSIVE TypeOfN(_), ValOfN(_), NamesOk(_)
TypeOfN(n) == IF n.k = "leaf" THEN n.t ELSE LET s == SortN(DOMAIN n.c) IN
  [k |-> "st", id |-> IF n.id = <<>> THEN StructureId ELSE n.id, n |-> s, f |-> [i \in 1..Len(s) |-> TypeOfN(n.c[s[i]])]]
ValOfN(n) == IF n.k = "leaf" THEN n.v ELSE LET s == SortN(DOMAIN n.c) IN [f |-> [i \in 1..Len(s) |-> ValOfN(n.c[s[i]])]]
NamesOk(n) == n.k = "leaf" \/ \A x \in DOMAIN n.c : NameOk(x) /\ NamesOk(n.c[x])
=============================================================================
