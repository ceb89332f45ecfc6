------------------------------- MODULE JsonIn -------------------------------
(* What reading a JSON document into a value does.  D[i]: the double nearest *)
(* to the number at i, as given by the environment (checked by DOk).         *)
EXTENDS JsonDoc, ValueB
RECURSIVE DOk(_, _)
DOk(j, D) == CASE j.j \in {"o", "a"} -> \A i \in 1..Len(j.f) : DOk(j.f[i], D)
  [] j.j = "flt" -> IF j.i \in DOMAIN D THEN NearDec(j.t, Flt(D[j.i]), "double") ELSE FALSE
  [] OTHER -> TRUE
(* the scalar a tree is *)
Kind(j) == CASE j.j = "int" -> "long" [] j.j = "flt" -> "double" [] j.j = "str" -> "string" [] j.j = "bool" -> "boolean" [] OTHER -> ""
Src(j, D) == CASE j.j = "int" -> Twos(j.z, 8) [] j.j = "flt" -> D[j.i] [] j.j = "str" -> j.s [] OTHER -> (IF j.b THEN <<1>> ELSE <<0>>)
Worst(S) == IF "no" \in S THEN "no" ELSE IF "any" \in S THEN "any" ELSE "ok"
ScA(t, max, j, D) == IF Kind(j) = "" THEN "no"
  ELSE IF max > 0 THEN (IF Kind(j) # "string" THEN "any" ELSE IF Len(j.s) <= max THEN "ok" ELSE "no")
  ELSE Acc(t, Kind(j), Src(j, D))
ScG(t, max, j, D, r) == Good(t, Kind(j), Src(j, D), r) /\ (max > 0 => Len(r) <= max)
(* the sub-field of a name, which may lead through structures: [ok, t, o] *)
RECURSIVE Resolve(_, _, _)
Index(ns, x) == IF \E i \in 1..Len(ns) : ns[i] = x THEN CHOOSE i \in 1..Len(ns) : ns[i] = x ELSE 0
Dot(x) == IF \E i \in 1..Len(x) : x[i] = 46 THEN CHOOSE i \in 1..Len(x) : x[i] = 46 /\ \A k \in 1..(i - 1) : x[k] # 46 ELSE 0
Resolve(t, base, x) ==
  IF t.k # "st" THEN [ok |-> FALSE]
  ELSE LET d == Dot(x)  i == Index(t.n, IF d = 0 THEN x ELSE SubSeq(x, 1, d - 1)) IN
    IF i = 0 THEN [ok |-> FALSE]
    ELSE IF d = 0 THEN [ok |-> TRUE, t |-> t.f[i], o |-> OffsetOf(t, base, i)]
    ELSE Resolve(t.f[i], OffsetOf(t, base, i), Rest(x, d))
(* may the tree be assigned to a field of the type, "ok", "no" or "any" *)
RECURSIVE May(_, _, _)
May(t, j, D) ==
  CASE t.k = "s" -> ScA(t.t, t.max, j, D)
    [] t.k = "sa" -> IF j.j # "a" THEN "no" ELSE IF (t.b = "b" /\ Len(j.f) > t.n) \/ (t.b = "f" /\ Len(j.f) # t.n) THEN "no"
                     ELSE Worst({ScA(t.t, 0, j.f[i], D) : i \in 1..Len(j.f)})
    [] t.k = "sta" -> IF j.j # "a" THEN "no" ELSE Worst({May(t.e, j.f[i], D) : i \in 1..Len(j.f)})
    [] t.k = "st" -> IF j.j # "o" THEN "no"
                     ELSE Worst({LET r == Resolve(t, 0, j.n[i]) IN IF r.ok THEN May(r.t, j.f[i], D) ELSE "no" : i \in 1..Len(j.n)})
    [] t.k = "u" -> IF Kind(j) = "" THEN "no" ELSE IF IsVariant(t) THEN "ok"
                    ELSE LET S == {IF t.f[i].k = "s" THEN ScA(t.f[i].t, t.f[i].max, j, D) ELSE "no" : i \in 1..Len(t.f)} IN
                         IF "ok" \in S THEN "ok" ELSE IF "any" \in S THEN "any" ELSE "no"
    [] OTHER -> "no"
(* the assignments to the leaves, in order: [o, t, j] *)
RECURSIVE Assigns(_, _, _), Flat(_, _)
Assigns(t, base, j) ==
  IF t.k # "st" THEN <<[o |-> base, t |-> t, j |-> j]>>
  ELSE Cat([i \in 1..Len(j.n) |-> LET r == Resolve(t, base, j.n[i]) IN Assigns(r.t, r.o, j.f[i])])
Flat(t, v) == IF t.k # "st" THEN <<[v |-> v]>> ELSE <<[st |-> TRUE]>> \o Cat([i \in 1..Len(t.f) |-> Flat(t.f[i], v.f[i])])
AssignedTo(as) == {as[i].o : i \in 1..Len(as)}
LastTo(as, o) == as[CHOOSE i \in 1..Len(as) : as[i].o = o /\ \A k \in (i + 1)..Len(as) : as[k].o # o]
(* the value r is what the tree says; old: what it was *)
RECURSIVE Now(_, _, _, _, _)
Now(t, j, D, old, r) ==
  CASE t.k = "s" -> ScG(t.t, t.max, j, D, r)
    [] t.k = "sa" -> Len(r) = Len(j.f) /\ \A i \in 1..Len(r) : ScG(t.t, 0, j.f[i], D, r[i])
    [] t.k = "sta" -> Len(r) = Len(j.f) /\ \A i \in 1..Len(r) : r[i] # Null /\ Now(t.e, j.f[i], D, Default(t.e), r[i])
    [] t.k = "st" -> LET as == Assigns(t, 0, j)  a == Flat(t, old)  b == Flat(t, r)  O == AssignedTo(as) IN
         \A o \in 0..(NF(t) - 1) : IF o \in O THEN (LET x == LastTo(as, o) IN Now(x.t, x.j, D, a[o + 1].v, b[o + 1].v)) ELSE b[o + 1] = a[o + 1]
    [] OTHER -> IF IsVariant(t) THEN r = [t |-> [k |-> "s", t |-> Kind(j), max |-> 0], v |-> Src(j, D)]
                ELSE IF r = Unsel THEN FALSE
                ELSE LET i == r.sel + 1  A == [k \in 1..Len(t.f) |-> IF t.f[k].k = "s" THEN ScA(t.f[k].t, t.f[k].max, j, D) ELSE "no"] IN
                     A[i] # "no" /\ (\A k \in 1..(i - 1) : A[k] # "ok") /\ ScG(t.f[i].t, t.f[i].max, j, D, r.v)
(* leaves whose name does not occur in a text are left alone even if it is refused *)
Occurs(x, s) == \E i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x
RECURSIVE Untouched(_, _, _, _)
Untouched(t, s, old, r) == \A i \in 1..Len(t.f) :
  IF t.f[i].k = "st" THEN Untouched(t.f[i], s, old.f[i], r.f[i]) ELSE Occurs(t.n[i], s) \/ r.f[i] = old.f[i]
-----------------------------------------------------------------------------
(* Into a new value: a structure is built (ValueB).  [st "ok"/"no"/"any", n] *)
LeafTy(k) == [k |-> "s", t |-> k, max |-> 0]
RECURSIVE Bld(_, _, _, _), BldI(_, _, _, _, _)
BldI(n, j, D, d, i) ==
  IF i > Len(j.n) THEN [st |-> "ok", n |-> n]
  ELSE LET x == j.n[i]  y == j.f[i]  No == [st |-> "no", n |-> n]
           nx(m) == BldI(m, j, D, d, i + 1)
           open(r) == IF r.st = "ok" THEN [r EXCEPT !.st = "any"] ELSE r IN
    IF x = <<>> THEN No
    ELSE CASE y.j = "null" -> No
      [] y.j = "o" -> IF ~NestOk(n, x) \/ d >= 128 THEN No
           ELSE LET m == AddNest(n, x, <<>>)  r == Bld(m.c[x], y, D, d + 1) IN
                IF r.st = "no" THEN No ELSE LET q == nx(SetKid(m, x, r.n)) IN IF r.st = "any" THEN open(q) ELSE q
      [] y.j = "a" -> IF ~LeafOk(n, x) THEN No
           ELSE IF y.f = <<>> THEN open(nx(n))                       \* of elements of no type
           ELSE LET k == Kind(y.f[1]) IN
                IF k = "" \/ (\E e \in 1..Len(y.f) : Kind(y.f[e]) # k) THEN No
                ELSE nx(AddLeaf(n, x, [k |-> "sa", t |-> k, b |-> "v", n |-> 0], [e \in 1..Len(y.f) |-> Src(y.f[e], D)]))
      [] OTHER -> IF ~LeafOk(n, x) THEN No ELSE nx(AddLeaf(n, x, LeafTy(Kind(y)), Src(y, D)))
Bld(n, j, D, d) == BldI(n, j, D, d, 1)
New(j, D) == IF j.j # "o" THEN [st |-> "no", n |-> NewNode(<<>>)]
  ELSE LET r == Bld(NewNode(<<>>), j, D, 1) IN IF r.st # "no" /\ ~NamesOk(r.n) THEN [r EXCEPT !.st = "no"] ELSE r
=============================================================================
