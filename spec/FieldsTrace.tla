---------------------------- MODULE FieldsTrace -----------------------------
(* C11, C12.  Every event: gone, the objects released since the last one;    *)
(* new, objects seen for the first time [id, t, c identities of the members];*)
(* ok; r the resulting object, or 0.  q: no operation is under way elsewhere *)
EXTENDS Fields, TraceBase
VARIABLES M, H, BS
vars == <<l, M, H, BS>>
(* M: live objects, identity -> type; H: identity -> handles held by users *)
TInit == l = 1 /\ M = <<>> /\ H = <<>> /\ BS = <<>>
RECURSIVE Sub(_)
Kids(t) == CASE t.k \in {"st", "u"} -> t.f [] t.k \in {"sta", "ua"} -> <<t.e>> [] OTHER -> <<>>
Sub(t) == {t} \cup UNION {Sub(Kids(t)[i]) : i \in 1..Len(Kids(t))}
Perm == {[k |-> "s", t |-> x, max |-> 0] : x \in ScalarTypes} \cup {[k |-> "sa", t |-> x, b |-> "v", n |-> 0] : x \in ScalarTypes} \cup {Variant, [k |-> "ua", e |-> Variant]}
T(i) == IF i = 0 THEN None ELSE M[i]
Ts(ids) == [i \in 1..Len(ids) |-> T(ids[i])]
News(e) == SeqToSet(e.new)
M1(e) == LET g == SeqToSet(e.gone)  ni == {x.id : x \in News(e)} IN
         [i \in (DOMAIN M \ g) \cup ni |-> IF i \in ni THEN (CHOOSE x \in News(e) : x.id = i).t ELSE M[i]]
Held(h) == {i \in DOMAIN h : h[i] > 0}
Inc(h, i) == IF i \in DOMAIN h THEN [h EXCEPT ![i] = @ + 1] ELSE h @@ (i :> 1)
(* what must be live: h is held, bs under construction *)
Objects(e, h, bs) ==
  LET m == M1(e)  live == {m[i] : i \in DOMAIN m}  byh == UNION {Sub(m[i]) : i \in Held(h)} IN
  /\ \A x \in News(e) : x.id \notin DOMAIN M /\ WfT(x.t)
  /\ Held(h) \subseteq DOMAIN m
  /\ \A x \in News(e) : LET ks == Kids(x.t) IN Len(x.c) = Len(ks) /\ \A i \in 1..Len(ks) : x.c[i] \in DOMAIN m /\ m[x.c[i]] = ks[i]
  /\ Cardinality(live) = Cardinality(DOMAIN m)              \* equal types are one object
  /\ byh \subseteq live
  /\ e.q => live \subseteq (byh \cup Perm \cup UNION {Sub(bs[b].f[i]) : <<b, i>> \in {<<b, i>> \in (1..Len(bs)) \X (1..20) : i <= Len(bs[b].f)}})
  /\ M' = m /\ H' = h /\ BS' = bs
(* a request R, yielding a type for the user *)
Req(e, R, bs) == /\ e.ok = R.ok
                 /\ IF R.ok THEN e.r \in DOMAIN M1(e) /\ M1(e)[e.r] = R.t /\ Objects(e, Inc(H, e.r), bs) ELSE e.r = 0 /\ Objects(e, H, bs)
Want(e) ==
  CASE e.w = "s" -> MkS(e.st)
    [] e.w = "str" -> MkStr(e.max)
    [] e.w = "sa" -> MkSA(e.st, e.b, e.max)
    [] e.w = "st" -> MkStruct(IF e.noid THEN StructureId ELSE e.id, e.n, Ts(e.f))
    [] e.w = "u" -> MkUnion(IF e.noid THEN UnionId ELSE e.id, e.n, Ts(e.f))
    [] e.w = "var" -> Yes(Variant)
    [] e.w = "vara" -> Yes([k |-> "ua", e |-> Variant])
    [] e.w = "sta" -> MkSTA(T(e.e))
    [] e.w = "ua" -> MkUA(T(e.e))
    [] e.w = "app" -> MkAppend(T(e.s), e.n, Ts(e.f))
    [] e.w = "fld" -> (IF e.e = 0 THEN No ELSE Yes(T(e.e)))
    [] e.w = "arr" -> MkArr(T(e.e))
    [] e.w = "wire" -> Yes(e.t)
    [] OTHER -> No
BDo(e, R) == e.ok = R.ok /\ Objects(e, H, R.bs)
Idx(t, nm) == IF \E i \in 1..Len(t.n) : t.n[i] = nm THEN CHOOSE i \in 1..Len(t.n) : t.n[i] = nm ELSE 0
Step(e) ==
  CASE e.op = "Start" -> M' = <<>> /\ H' = <<>> /\ BS' = <<>>
    [] e.op = "mk" -> Req(e, Want(e), BS)
    [] e.op = "drop" -> Objects(e, [i \in DOMAIN H |-> IF i = e.i THEN H[i] - e.k ELSE H[i]], BS)
    [] e.op = "quiet" -> Objects(e, H, BS)
    [] e.op = "cmp" -> e.eq = (T(e.a) = T(e.b)) /\ e.ne = ~e.eq /\ e.full = e.eq /\ e.rev = e.eq /\ e.kind = e.eq /\ Objects(e, H, BS)
    [] e.op = "bnew" -> (CASE e.s = -1 -> BDo(e, BOk(Append(BS, Frame(0, "st", <<>>, FALSE, TRUE))))
                          [] e.s = 0 -> BDo(e, BNo(BS))
                          [] OTHER -> BDo(e, BOk(Append(BS, FrameOf(T(e.s), 0, "st", <<>>, FALSE)))))
    [] e.op = "bid" -> BDo(e, BSetId(BS, e.x, e.id)) /\ e.to = e.x
    [] e.op = "badd" -> BDo(e, BAdd(BS, e.x, e.name, Want(e))) /\ (e.ok => e.to = e.x)
    [] e.op = "bnest" -> BDo(e, BNest(BS, e.x, e.name, e.kind, e.arr))
    [] e.op = "bend" -> BDo(e, BEnd(BS, e.x)) /\ (e.ok => e.to = BS[e.x].par)
    [] e.op = "bmake" -> LET R == BMake(BS, e.x, e.kind) IN Req(e, [ok |-> R.ok, t |-> R.t], R.bs)
    [] e.op = "look" -> LET t == T(e.i)  k == Idx(t, e.name)  has == k > 0 IN
         /\ e.idx = k - 1 /\ e.tok = has /\ e.kok = (has /\ t.f[k].k = e.kind)
         /\ (IF has THEN e.r > 0 /\ T(e.r) = t.f[k] /\ e.rt = e.r ELSE e.r = 0 /\ e.rt = 0)
         /\ e.rk = (IF has /\ t.f[k].k = e.kind THEN e.r ELSE 0) /\ e.rkt = e.rk
         /\ Objects(e, H, BS)
    [] e.op = "pos" -> LET t == T(e.i)  in == e.p < Len(t.f) IN
         /\ e.nf = Len(t.f) /\ e.ok = in /\ e.nok = in /\ e.tok = in
         /\ (in => T(e.r) = t.f[e.p + 1] /\ e.rt = e.r /\ e.name = t.n[e.p + 1])
         /\ e.rk = (IF in /\ t.f[e.p + 1].k = e.kind THEN e.r ELSE 0) /\ e.kok = (in /\ t.f[e.p + 1].k = e.kind) /\ e.rkt = e.rk
         /\ Objects(e, H, BS)
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
