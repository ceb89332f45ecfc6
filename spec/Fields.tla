------------------------------- MODULE Fields --------------------------------
(* Construction of types.  A request gives [ok, t]: the type it asks for, or *)
(* refusal.  M: the live type objects, identity -> [t type, c identities of  *)
(* the members].  A builder is a frame [id, set, n, f, par, kind, name, arr, *)
(* made]; BS is the sequence of all builders, par the number of the parent.  *)
EXTENDS PVTypes, FiniteSets
None == [k |-> "none"]
No == [ok |-> FALSE, t |-> None]
Yes(t) == [ok |-> TRUE, t |-> t]
FieldsOk(ns, fs) == /\ Len(ns) = Len(fs) /\ DistinctNames(ns) /\ \A i \in 1..Len(ns) : NameOk(ns[i])
                    /\ \A i \in 1..Len(fs) : fs[i] # None
MkS(st) == IF st \in ScalarTypes THEN Yes([k |-> "s", t |-> st, max |-> 0]) ELSE No
MkStr(n) == IF n > 0 THEN Yes([k |-> "s", t |-> "string", max |-> n]) ELSE No
MkSA(st, b, n) == IF st \in ScalarTypes THEN Yes([k |-> "sa", t |-> st, b |-> b, n |-> n]) ELSE No
MkStruct(id, ns, fs) == IF id # <<>> /\ FieldsOk(ns, fs) THEN Yes([k |-> "st", id |-> id, n |-> ns, f |-> fs]) ELSE No
MkUnion(id, ns, fs) == IF id # <<>> /\ FieldsOk(ns, fs) /\ (fs = <<>> => id = AnyId) THEN Yes([k |-> "u", id |-> id, n |-> ns, f |-> fs]) ELSE No
MkSTA(t) == IF t.k = "st" THEN Yes([k |-> "sta", e |-> t]) ELSE No
MkUA(t) == IF t.k = "u" THEN Yes([k |-> "ua", e |-> t]) ELSE No
(* an array with elements of type t *)
MkArr(t) == CASE t.k = "st" -> MkSTA(t) [] t.k = "u" -> MkUA(t) [] t.k = "s" -> (IF t.max > 0 THEN No ELSE MkSA(t.t, "v", 0)) [] OTHER -> No
MkAppend(t, ns, fs) == IF t.k # "st" THEN No ELSE IF Len(ns) # Len(fs) THEN No ELSE MkStruct(t.id, t.n \o ns, t.f \o fs)
-----------------------------------------------------------------------------
(* builders: an operation gives [ok, bs, t]; t is what it builds, if anything *)
Frame(par, kind, name, arr, made) == [id |-> <<>>, set |-> FALSE, n |-> <<>>, f |-> <<>>, par |-> par, kind |-> kind, name |-> name, arr |-> arr, made |-> made]
FrameOf(t, par, kind, name, arr) == [id |-> t.id, set |-> TRUE, n |-> t.n, f |-> t.f, par |-> par, kind |-> kind, name |-> name, arr |-> arr, made |-> FALSE]
BOk(bs) == [ok |-> TRUE, bs |-> bs, t |-> None]
BNo(bs) == [ok |-> FALSE, bs |-> bs, t |-> None]
Where(fr, nm) == IF \E i \in 1..Len(fr.n) : fr.n[i] = nm THEN CHOOSE i \in 1..Len(fr.n) : fr.n[i] = nm ELSE 0
BSetId(bs, b, id) == BOk([bs EXCEPT ![b] = [@ EXCEPT !.id = id, !.set = TRUE]])
(* a second field of the name: ignored if the same, refused otherwise *)
BAdd(bs, b, nm, R) ==
  IF ~R.ok \/ R.t = None THEN BNo(bs)
  ELSE LET i == Where(bs[b], nm) IN
       IF i = 0 THEN BOk([bs EXCEPT ![b] = [@ EXCEPT !.n = Append(@, nm), !.f = Append(@, R.t)]])
       ELSE IF bs[b].f[i] = R.t THEN BOk(bs) ELSE BNo(bs)
(* open a nested builder, of an existing field if there is one of the kind *)
BNest(bs, b, nm, kind, arr) ==
  LET i == Where(bs[b], nm) IN
  IF i = 0 THEN BOk(Append(bs, Frame(b, kind, nm, arr, TRUE)))
  ELSE LET t == bs[b].f[i]  want == IF arr THEN (IF kind = "st" THEN "sta" ELSE "ua") ELSE kind IN
       IF t.k # want THEN BNo(bs) ELSE BOk(Append(bs, FrameOf(IF arr THEN t.e ELSE t, b, kind, nm, arr)))
BType(fr, kind) ==
  IF kind = "u" /\ fr.n = <<>> /\ ~fr.set THEN Yes(Variant)
  ELSE IF kind = "st" THEN MkStruct(IF fr.set THEN fr.id ELSE StructureId, fr.n, fr.f) ELSE MkUnion(IF fr.set THEN fr.id ELSE UnionId, fr.n, fr.f)
BEnd(bs, b) ==
  LET fr == bs[b] IN
  IF fr.par = 0 THEN BNo(bs)
  ELSE LET R == BType(fr, fr.kind) IN
       IF ~R.ok THEN BNo(bs)
       ELSE LET F == IF fr.arr THEN MkArr(R.t) ELSE R IN
            IF fr.made THEN BAdd(bs, fr.par, fr.name, F)
            ELSE LET i == Where(bs[fr.par], fr.name) IN
                 IF i = 0 THEN BNo(bs) ELSE BOk([bs EXCEPT ![fr.par] = [@ EXCEPT !.f = [@ EXCEPT ![i] = F.t]]])
BMake(bs, b, kind) ==
  IF bs[b].par # 0 THEN BNo(bs)
  ELSE LET R == BType(bs[b], kind) IN
       IF ~R.ok THEN BNo(bs)
       ELSE [ok |-> TRUE, bs |-> [bs EXCEPT ![b] = [@ EXCEPT !.id = <<>>, !.set = FALSE, !.n = <<>>, !.f = <<>>]], t |-> R.t]
=============================================================================
