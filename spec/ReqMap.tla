------------------------------- MODULE ReqMap --------------------------------
(* Mapping between a structure and the part of it a request selects.         *)
(* A request is a tree of names: [k |-> "st", n, f]; anything else in it     *)
(* ([k |-> "x"]) is malformed.                                               *)
EXTENDS PVTypes
CONSTANTS MaxDepth
Index(ns, x) == IF \E i \in 1..Len(ns) : ns[i] = x THEN CHOOSE i \in 1..Len(ns) : ns[i] = x ELSE 0
(* below MaxDepth levels, at a leaf and without names, everything is meant *)
Whole(t, q, d) == t.k # "st" \/ d >= MaxDepth \/ q.n = <<>>
RECURSIVE Bad(_, _, _)
Bad(t, q, d) == \E i \in 1..Len(q.n) :
  IF q.f[i].k # "st" THEN TRUE ELSE LET j == Index(t.n, q.n[i]) IN IF j = 0 THEN FALSE
  ELSE IF Whole(t.f[j], q.f[i], d) THEN FALSE ELSE Bad(t.f[j], q.f[i], d + 1)
(* is there something the request names but does not get *)
RECURSIVE Warn(_, _, _)
Warn(t, q, d) == \E i \in 1..Len(q.n) : LET j == Index(t.n, q.n[i]) IN IF j = 0 THEN TRUE
  ELSE IF t.f[j].k # "st" THEN q.f[i].n # <<>> ELSE IF Whole(t.f[j], q.f[i], d) THEN FALSE ELSE Warn(t.f[j], q.f[i], d + 1)
RECURSIVE Deep(_, _, _)
Deep(t, q, d) == \E i \in 1..Len(q.n) : LET j == Index(t.n, q.n[i]) IN IF j = 0 THEN FALSE
  ELSE d >= MaxDepth \/ (IF Whole(t.f[j], q.f[i], d) THEN FALSE ELSE Deep(t.f[j], q.f[i], d + 1))
(* the selection [t: its type, o: for each of its fields the field number in *)
(* the whole structure]                                                      *)
RECURSIVE Sel(_, _, _, _, _)
Sel(t, q, base, keep, d) ==
  LET ks == SelectSeq([i \in 1..Len(q.n) |-> [i |-> i, j |-> Index(t.n, q.n[i])]], LAMBDA x : x.j # 0 /\ q.f[x.i].k = "st")
      one(x) == IF Whole(t.f[x.j], q.f[x.i], d) THEN [t |-> t.f[x.j], o |-> [y \in 1..NF(t.f[x.j]) |-> OffsetOf(t, base, x.j) + y - 1]]
                ELSE Sel(t.f[x.j], q.f[x.i], OffsetOf(t, base, x.j), keep, d + 1)
      s == [x \in 1..Len(ks) |-> one(ks[x])]
  IN [t |-> [k |-> "st", id |-> IF keep THEN t.id ELSE StructureId, n |-> [x \in 1..Len(ks) |-> t.n[ks[x].j]], f |-> [x \in 1..Len(ks) |-> s[x].t]],
      o |-> <<base>> \o Cat([x \in 1..Len(ks) |-> s[x].o])]
(* the mapper: types, the mask, and which field of the one is which of the other *)
None == [base |-> <<>>]
All(t) == [t |-> t, o |-> [i \in 1..NF(t) |-> i - 1]]
Chosen(t, q, keep) == IF q.n = <<>> THEN All(t) ELSE Sel(t, q, 0, keep, 0)
SelOk(t, q) == (q.n = <<>> \/ ~Bad(t, q, 0)) /\ Len(Chosen(t, q, FALSE).o) > 1
Mapper(t, q, keep, mask) ==
  LET c == Chosen(t, q, keep)  M == {c.o[i] : i \in 1..Len(c.o)} IN
  [base |-> t, req |-> IF mask THEN t ELSE c.t, mask |-> M,
   map |-> IF mask THEN {<<b, b>> : b \in M} ELSE {<<i - 1, c.o[i]>> : i \in 1..Len(c.o)}]   \* requested, base
(* a set of fields with everything beneath them *)
RECURSIVE Under(_, _, _)
Under(t, m, base) == IF base \in m THEN Range(base, t) ELSE IF t.k # "st" THEN {} ELSE UNION {Under(t.f[i], m, OffsetOf(t, base, i)) : i \in 1..Len(t.f)}
Swapped(map) == {<<p[2], p[1]>> : p \in map}
(* pairs go to, from *)
Marks(map, ft, m, md) == LET u == Under(ft, m, 0) IN md \cup {p[1] : p \in {q \in map : q[2] \in u}}
RECURSIVE Flat(_, _)
Flat(t, v) == IF t.k # "st" THEN <<[v |-> v]>> ELSE <<[st |-> TRUE]>> \o Cat([i \in 1..Len(t.f) |-> Flat(t.f[i], v.f[i])])
Copied(map, ft, from, tt, to, m) ==
  LET u == Under(ft, m, 0)  ff == Flat(ft, from)  fo == Flat(tt, to)
      src(k) == LET s == {p \in map : p[1] = k /\ p[2] \in u} IN IF s = {} THEN -1 ELSE (CHOOSE p \in s : TRUE)[2]
      S == [k \in 1..Len(fo) |-> src(k - 1)] IN [k \in 1..Len(fo) |-> IF S[k] = -1 \/ "st" \in DOMAIN fo[k] THEN fo[k] ELSE ff[S[k] + 1]]
=============================================================================
