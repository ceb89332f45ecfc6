------------------------------- MODULE PVHeap -------------------------------
(* The object structure of pvData values: a heap of fields with identity.   *)
(* A heap h is a sequence of nodes; the index is the field's identity.      *)
(* node: [t type, v content, p parent identity or 0, im immutable]          *)
(*   content: scalar = bytes; scalar array = sequence of bytes;             *)
(*   structure = sequence of the children's identities;                     *)
(*   union = [sel, c] with c the identity of the held value or 0;           *)
(*   array of structures/unions = sequence of identities, 0 for null.       *)
(* Operations are functions from a state S = [h, ps, ok, r]: ps lists, in   *)
(* order, the fields whose change handler is called, ok tells whether the   *)
(* operation is accepted, r is its result.                                  *)
EXTENDS PVTypes
Node(t, v, p) == [t |-> t, v |-> v, p |-> p, im |-> FALSE]
St(h) == [h |-> h, ps |-> <<>>, ok |-> TRUE, r |-> 0]
Refuse(h) == [h |-> h, ps |-> <<>>, ok |-> FALSE, r |-> 0]
SetV(S, n, v) == [S EXCEPT !.h[n].v = v]
(* what a handler of field n can see of it when it is called *)
Seen(x) == CASE x.t.k \in {"s", "sa"} -> x.v [] x.t.k = "u" -> x.v.sel [] x.t.k = "st" -> 0 [] OTHER -> Len(x.v)
Post(S, n) == [S EXCEPT !.ps = Append(@, [n |-> n, v |-> Seen(S.h[n])])]
Ret(S, r) == [S EXCEPT !.r = r]
IsArr(t) == t.k \in {"sa", "sta", "ua"}
IsObjArr(t) == t.k \in {"sta", "ua"}
NoSel == [sel |-> -1, c |-> 0]

(* a new field of type t with default contents; the result is its identity  *)
RECURSIVE Alloc(_, _, _), AllocKids(_, _, _, _)
AllocKids(S, t, id, i) ==
  IF i > Len(t.f) THEN S
  ELSE LET a == Alloc(S, t.f[i], id) IN AllocKids([a EXCEPT !.h[id].v = Append(@, a.r)], t, id, i + 1)
Alloc(S, t, p) ==
  LET id == Len(S.h) + 1
      v == CASE t.k = "s" -> Zeros(Width(t.t)) [] t.k = "u" -> NoSel [] t.k = "sa" -> Default(t) [] OTHER -> <<>>
      S1 == [S EXCEPT !.h = Append(@, Node(t, v, p))] IN
  IF t.k = "st" THEN Ret(AllocKids(S1, t, id, 1), id) ELSE Ret(S1, id)

(* the value a field denotes *)
RECURSIVE Val(_, _)
Val(h, n) ==
  IF n = 0 THEN Null
  ELSE LET x == h[n] IN
  CASE x.t.k \in {"s", "sa"} -> x.v
    [] x.t.k = "st" -> [f |-> [i \in 1..Len(x.v) |-> Val(h, x.v[i])]]
    [] x.t.k \in {"sta", "ua"} -> [i \in 1..Len(x.v) |-> Val(h, x.v[i])]
    [] x.t.k = "u" -> IF IsVariant(x.t) THEN (IF x.v.c = 0 THEN Empty ELSE [t |-> h[x.v.c].t, v |-> Val(h, x.v.c)])
                      ELSE IF x.v.sel = -1 THEN Unsel ELSE [sel |-> x.v.sel, v |-> Val(h, x.v.c)]
-----------------------------------------------------------------------------
(* Unions *)
Select(S, n, i) ==
  LET x == S.h[n] IN
  IF IsVariant(x.t) THEN (IF i = -1 THEN Ret(SetV(S, n, NoSel), 0) ELSE Refuse(S.h))
  ELSE IF i = x.v.sel THEN Ret(S, x.v.c)
  ELSE IF i = -1 THEN Ret(SetV(S, n, NoSel), 0)
  ELSE IF i < 0 \/ i >= Len(x.t.f) THEN Refuse(S.h)
  ELSE LET a == Alloc(S, x.t.f[i + 1], 0) IN Ret(SetV(a, n, [sel |-> i, c |-> a.r]), a.r)
NameIndex(t, nm) == IF \E i \in 1..Len(t.n) : t.n[i] = nm THEN (CHOOSE i \in 1..Len(t.n) : t.n[i] = nm) - 1 ELSE -1
SelectName(S, n, nm) ==
  LET i == NameIndex(S.h[n].t, nm) IN IF i = -1 THEN Refuse(S.h) ELSE Select(S, n, i)
SetU(S, n, i, c) ==
  LET x == S.h[n] IN
  IF IsVariant(x.t) THEN (IF i # -1 THEN Refuse(S.h) ELSE Post(SetV(S, n, [sel |-> -1, c |-> c]), n))
  ELSE IF i = -1 THEN (IF c # 0 THEN Refuse(S.h) ELSE Post(SetV(S, n, NoSel), n))
  ELSE IF i < 0 \/ i >= Len(x.t.f) \/ c = 0 THEN Refuse(S.h)
  ELSE IF S.h[c].t # x.t.f[i + 1] THEN Refuse(S.h)
  ELSE Post(SetV(S, n, [sel |-> i, c |-> c]), n)
SetName(S, n, nm, c) ==
  LET i == NameIndex(S.h[n].t, nm) IN IF i = -1 THEN Refuse(S.h) ELSE SetU(S, n, i, c)
SetCur(S, n, c) == SetU(S, n, S.h[n].v.sel, c)
-----------------------------------------------------------------------------
(* Scalars and arrays *)
LenOk(t, n) == IF t.k = "sa" /\ t.b = "b" THEN n <= t.n ELSE IF t.k = "sa" /\ t.b = "f" THEN n = t.n ELSE TRUE
Put(S, n, v) == LET t == S.h[n].t IN IF t.max > 0 /\ Len(v) > t.max THEN Refuse(S.h) ELSE Post(SetV(S, n, v), n)
Replace(S, n, v) == IF ~LenOk(S.h[n].t, Len(v)) THEN Refuse(S.h) ELSE Post(SetV(S, n, v), n)
(* Elements added by a change of length are not specified by the interface, *)
(* only that they are elements of the array's type: tail are those found.   *)
ElemOk(h, t, x) == IF t.k = "sa" THEN WfScalar(t.t, x) ELSE x = 0 \/ (x \in 1..Len(h) /\ h[x].t = t.e)
SetLength(S, n, k, tail) ==
  LET x == S.h[n] IN
  IF x.im THEN Refuse(S.h)
  ELSE IF k = Len(x.v) THEN S
  ELSE IF ~LenOk(x.t, k) THEN Refuse(S.h)
  ELSE IF k < Len(x.v) THEN SetV(S, n, SubSeq(x.v, 1, k))
  ELSE IF Len(tail) # k - Len(x.v) \/ \E i \in 1..Len(tail) : ~ElemOk(S.h, x.t, tail[i]) THEN [S EXCEPT !.r = "bad elements"]
  ELSE SetV(S, n, x.v \o tail)
(* the primitive exchange: no length check, no notification *)
Swap(S, n, v) == IF S.h[n].im THEN Refuse(S.h) ELSE Ret(SetV(S, n, v), S.h[n].v)
(* append k fresh default elements; the result is the new length *)
RECURSIVE AllocN(_, _, _)
AllocN(S, n, k) ==
  IF k = 0 THEN S
  ELSE LET a == Alloc(S, S.h[n].t.e, 0) IN AllocN([a EXCEPT !.h[n].v = Append(@, a.r)], n, k - 1)
AppendN(S, n, k) ==
  IF S.h[n].im THEN Refuse(S.h)
  ELSE LET a == AllocN(S, n, k) IN Ret(a, Len(a.h[n].v))
Remove(S, n, off, k) ==
  LET v == S.h[n].v IN
  IF k = 0 THEN Ret(S, 1)
  ELSE IF k > Len(v) \/ off > Len(v) - k THEN Ret(S, 0)
  ELSE IF S.h[n].im THEN Refuse(S.h)
  ELSE Ret(SetV(S, n, SubSeq(v, 1, off) \o SubSeq(v, off + k + 1, Len(v))), 1)
NotNull(x) == x # 0
CompressA(S, n) == IF S.h[n].im THEN Refuse(S.h) ELSE SetV(S, n, SelectSeq(S.h[n].v, NotNull))
-----------------------------------------------------------------------------
(* Copying.  Elements of arrays of structures and unions are shared; every  *)
(* other part of the target keeps its identity and takes the source's       *)
(* contents.                                                                *)
RECURSIVE CopyU(_, _, _), CopyKids(_, _, _, _)
CopyKids(S, d, s, i) ==
  IF i > Len(S.h[d].v) THEN S ELSE CopyKids(CopyU(S, S.h[d].v[i], S.h[s].v[i]), d, s, i + 1)
CopyU(S, d, s) ==
  LET t == S.h[d].t  from == S.h[s].v IN
  IF t.k = "st" THEN (IF d = s THEN S ELSE CopyKids(S, d, s, 1))
  ELSE IF t.k # "u" THEN (IF d = s THEN S ELSE Post(SetV(S, d, from), d))
  ELSE IF from.c = 0 THEN Post(SetV(S, d, NoSel), d)
  ELSE IF IsVariant(t) THEN
       LET to == S.h[d].v.c IN
       IF to = 0 \/ S.h[to].t # S.h[from.c].t
       THEN LET a == Alloc(S, S.h[from.c].t, 0)
                b == CopyU(a, a.r, from.c) IN
            Post(SetV(b, d, [sel |-> -1, c |-> a.r]), d)
       ELSE Post(CopyU(S, to, from.c), d)
  ELSE LET a == Select(S, d, from.sel) IN Post(CopyU(a, a.r, from.c), d)
Copy(S, d, s) == IF S.h[d].im \/ S.h[d].t # S.h[s].t THEN Refuse(S.h) ELSE CopyU(S, d, s)
(* only the fields selected by m; s is numbered from base *)
RECURSIVE CopyM(_, _, _, _, _), CopyMKids(_, _, _, _, _, _)
CopyMKids(S, d, s, m, base, i) ==
  LET t == S.h[d].t IN
  IF i > Len(t.f) THEN S
  ELSE CopyMKids(CopyM(S, S.h[d].v[i], S.h[s].v[i], m, OffsetOf(t, base, i)), d, s, m, base, i + 1)
CopyM(S, d, s, m, base) ==
  LET t == S.h[d].t IN
  IF d = s \/ m \cap Range(base, t) = {} THEN S
  ELSE IF base \in m THEN CopyU(S, d, s)
  ELSE CopyMKids(S, d, s, m, base, 1)
Clone(S, s) == LET a == Alloc(S, S.h[s].t, 0) IN Ret(CopyU(a, a.r, s), a.r)
(* decoding the serialized contents of s into d, which has the same type.   *)
(* Array elements are new (somebody else holds the old ones); a union may   *)
(* keep a held value of the right type.                                     *)
RECURSIVE Decode(_, _, _, _), DecodeKids(_, _, _, _, _), DecodeElems(_, _, _, _, _)
DecodeKids(S, d, s, ru, i) ==
  IF i > Len(S.h[d].v) THEN S ELSE DecodeKids(Decode(S, S.h[d].v[i], S.h[s].v[i], ru), d, s, ru, i + 1)
DecodeElems(S, e, vs, ru, acc) ==
  IF vs = <<>> THEN Ret(S, acc)
  ELSE IF Head(vs) = 0 THEN DecodeElems(S, e, Tail(vs), ru, Append(acc, 0))
  ELSE LET a == Alloc(S, e, 0)  b == Decode(a, a.r, Head(vs), ru) IN DecodeElems(b, e, Tail(vs), ru, Append(acc, a.r))
Decode(S, d, s, ru) ==
  LET t == S.h[d].t  from == S.h[s].v IN
  CASE t.k = "s" -> SetV(S, d, from)
    [] t.k = "sa" -> Post(SetV(S, d, from), d)
    [] t.k = "st" -> DecodeKids(S, d, s, ru, 1)
    [] t.k \in {"sta", "ua"} -> LET b == DecodeElems(S, t.e, from, ru, <<>>) IN Post(SetV(b, d, b.r), d)
    [] t.k = "u" ->
       IF from.c = 0 THEN SetV(S, d, NoSel)
       ELSE LET cur == S.h[d].v  ft == S.h[from.c].t
                keep == cur.c # 0 /\ S.h[cur.c].t = ft /\ (ru \/ (~IsVariant(t) /\ cur.sel = from.sel))
                a == IF keep THEN Ret(S, cur.c) ELSE Alloc(S, ft, 0)
                b == SetV(a, d, [sel |-> from.sel, c |-> a.r]) IN
            Decode(b, a.r, from.c, ru)
(* a structure made from existing fields, which become its children *)
Build(S, ns, cs) ==
  LET id == Len(S.h) + 1
      t == [k |-> "st", id |-> StructureId, n |-> ns, f |-> [i \in 1..Len(cs) |-> S.h[cs[i]].t]]
      h2 == [i \in 1..Len(S.h) |-> IF i \in {cs[j] : j \in 1..Len(cs)} THEN [S.h[i] EXCEPT !.p = id] ELSE S.h[i]] IN
  Ret([S EXCEPT !.h = Append(h2, Node(t, cs, 0))], id)
(* immutability spreads to the fields of a structure *)
RECURSIVE Freeze(_, _), FreezeKids(_, _, _)
FreezeKids(S, n, i) == IF i > Len(S.h[n].v) THEN S ELSE FreezeKids(Freeze(S, S.h[n].v[i]), n, i + 1)
Freeze(S, n) == LET a == [S EXCEPT !.h[n].im = TRUE] IN IF S.h[n].t.k = "st" THEN FreezeKids(a, n, 1) ELSE a
-----------------------------------------------------------------------------
(* Well-formed heaps *)
RECURSIVE Below(_, _)
Below(h, n) == {n} \cup (IF h[n].t.k = "st" THEN UNION {Below(h, h[n].v[i]) : i \in 1..Len(h[n].v)} ELSE {})
(* the fields a value owns: everything but elements of object arrays *)
RECURSIVE Owned(_, _)
Owned(h, n) == {n} \cup
  (IF h[n].t.k = "st" THEN UNION {Owned(h, h[n].v[i]) : i \in 1..Len(h[n].v)}
   ELSE IF h[n].t.k = "u" /\ h[n].v.c # 0 THEN Owned(h, h[n].v.c) ELSE {})
WfNode(h, n) ==
  LET x == h[n] IN
  /\ CASE x.t.k \in {"s", "sa"} -> Wf(x.t, x.v)
       [] x.t.k = "st" -> /\ Len(x.v) = Len(x.t.f)
                          /\ \A i \in 1..Len(x.v) : h[x.v[i]].t = x.t.f[i] /\ h[x.v[i]].p = n
                          /\ \A i, j \in 1..Len(x.v) : x.v[i] = x.v[j] => i = j
       [] x.t.k \in {"sta", "ua"} -> \A i \in 1..Len(x.v) : x.v[i] = 0 \/ h[x.v[i]].t = x.t.e
       [] x.t.k = "u" -> IF IsVariant(x.t) THEN x.v.sel = -1
                         ELSE (x.v.sel = -1 /\ x.v.c = 0) \/ (x.v.sel \in 0..Len(x.t.f)-1 /\ x.v.c # 0 /\ h[x.v.c].t = x.t.f[x.v.sel + 1])
  /\ x.p # 0 => h[x.p].t.k = "st" /\ (\E i \in 1..Len(h[x.p].v) : h[x.p].v[i] = n) /\ (h[x.p].im => x.im)
WfHeap(h) == \A n \in 1..Len(h) : WfNode(h, n)
-----------------------------------------------------------------------------
(* Renumbering of the fields created after the first N in the order in      *)
(* which a walk over the heap meets them (then unreachable ones vanish).    *)
Kids(x) == CASE x.t.k = "st" -> x.v [] x.t.k = "u" -> <<x.v.c>> [] x.t.k \in {"sta", "ua"} -> x.v [] OTHER -> <<>>
RECURSIVE Visit(_, _, _, _), VisitKids(_, _, _, _, _), VisitAll(_, _, _, _)
VisitKids(h, N, ks, i, acc) == IF i > Len(ks) THEN acc ELSE VisitKids(h, N, ks, i + 1, Visit(h, N, ks[i], acc))
Visit(h, N, id, acc) ==
  IF id <= N \/ \E i \in 1..Len(acc) : acc[i] = id THEN acc
  ELSE VisitKids(h, N, Kids(h[id]), 1, Append(acc, id))
VisitAll(h, N, i, acc) == IF i > N THEN acc ELSE VisitAll(h, N, i + 1, VisitKids(h, N, Kids(h[i]), 1, acc))
(* isid: the result of the operation is an identity *)
Canon(S, N, isid) ==
  IF Len(S.h) = N THEN S
  ELSE LET o1 == VisitAll(S.h, N, 1, <<>>)
           ord == IF isid THEN Visit(S.h, N, S.r, o1) ELSE o1
           m(id) == IF id <= N THEN id ELSE N + (CHOOSE i \in 1..Len(ord) : ord[i] = id)
           re(x) == CASE x.t.k \in {"st", "sta", "ua"} -> [x EXCEPT !.v = [i \in 1..Len(x.v) |-> m(x.v[i])], !.p = m(x.p)]
                      [] x.t.k = "u" -> [x EXCEPT !.v = [sel |-> x.v.sel, c |-> m(x.v.c)], !.p = m(x.p)]
                      [] OTHER -> [x EXCEPT !.p = m(x.p)] IN
       [S EXCEPT !.h = [i \in 1..(N + Len(ord)) |-> IF i <= N THEN re(S.h[i]) ELSE re(S.h[ord[i - N]])],
                 !.r = IF isid THEN m(S.r) ELSE S.r]
=============================================================================
