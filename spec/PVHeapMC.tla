------------------------------ MODULE PVHeapMC ------------------------------
(* The heap specification explored: every history of a few operations on two *)
(* instances of each small type.  law records whether the last step obeyed   *)
(* the laws a user relies on (faithful copies, independence, locality).      *)
EXTENDS PVHeap, TLC
CONSTANTS Depth, MaxNodes
A == <<97>>  B == <<98>>
S(t) == [k |-> "s", t |-> t, max |-> 0]
Byte == S("byte")
SAb == [k |-> "sa", t |-> "byte", b |-> "b", n |-> 1]
Stt(ts) == [k |-> "st", id |-> StructureId, n |-> [i \in 1..Len(ts) |-> IF i = 1 THEN A ELSE B], f |-> ts]
Uni(ts) == [k |-> "u", id |-> UnionId, n |-> [i \in 1..Len(ts) |-> IF i = 1 THEN A ELSE B], f |-> ts]
Leaf == Stt(<<Byte>>)
Types == {Stt(<<Byte, SAb>>), Stt(<<Uni(<<Byte, SAb>>), Byte>>), Uni(<<Leaf, Byte>>), Stt(<<Variant>>), [k |-> "sta", e |-> Leaf], [k |-> "ua", e |-> Uni(<<Byte>>)], Stt(<<[k |-> "sta", e |-> Leaf]>>)}
VARIABLES h, d, law
vars == <<h, d, law>>
Init == /\ d = 0 /\ law = TRUE
        /\ \E t \in Types : h = Alloc(Alloc(St(<<>>), t, 0), t, 0).h
RECURSIVE Reach(_, _, _)
Reach(hh, x, y) == x = y \/ (x # 0 /\ LET ks == Kids(hh[x]) IN \E i \in 1..Len(ks) : ks[i] # 0 /\ Reach(hh, ks[i], y))
N == Len(h)
(* nothing but the nodes of set X (and new nodes) differs from before *)
Local(R, X) == \A i \in 1..N : i \notin X => R.h[i] = h[i]
Same(R) == R.h = h
NewOk(R) == Len(R.h) <= MaxNodes
Frozen(X) == \E i \in X : h[i].im
Apply(R, ok) == R.ok /\ NewOk(R) /\ h' = R.h /\ d' = d + 1 /\ law' = ok
(* a refused operation changes nothing *)
Refused(R) == ~R.ok /\ UNCHANGED <<h, d>> /\ law' = (R.h = h /\ R.ps = <<>>)
Posted(R, X) == \A i \in 1..Len(R.ps) : R.ps[i].n \in X
Once(R, n) == Len(R.ps) = 1 /\ R.ps[1].n = n
OpPut == \E n \in 1..N : h[n].t.k = "s" /\ ~h[n].im /\ \E v \in {<<0>>, <<7>>} : LET R == Put(St(h), n, v) IN Apply(R, Local(R, {n}) /\ R.h[n].v = v /\ Once(R, n))
OpReplace == \E n \in 1..N : h[n].t.k = "sa" /\ ~h[n].im /\ \E v \in {<<>>, <<<<5>>>>, <<<<5>>, <<6>>>>} : LET R == Replace(St(h), n, v) IN
   Refused(R) \/ Apply(R, Local(R, {n}) /\ R.h[n].v = v /\ Once(R, n))
OpLen == \E n \in 1..N : IsArr(h[n].t) /\ \E k \in 0..2 : LET R == SetLength(St(h), n, k, [i \in 1..(IF k > Len(h[n].v) THEN k - Len(h[n].v) ELSE 0) |-> IF h[n].t.k = "sa" THEN <<0>> ELSE 0]) IN
   Refused(R) \/ Apply(R, Local(R, {n}) /\ R.ps = <<>> /\ Len(R.h[n].v) = k /\ \A i \in 1..k : i <= Len(h[n].v) => R.h[n].v[i] = h[n].v[i])
OpAppend == \E n \in 1..N : IsObjArr(h[n].t) /\ \E k \in 0..2 : LET R == AppendN(St(h), n, k) IN
   Refused(R) \/ Apply(R, /\ Local(R, {n}) /\ R.r = Len(h[n].v) + k /\ SubSeq(R.h[n].v, 1, Len(h[n].v)) = h[n].v
      /\ \A i \in Len(h[n].v) + 1..R.r : R.h[n].v[i] > N /\ Val(R.h, R.h[n].v[i]) = Default(h[n].t.e))
OpRemove == \E n \in 1..N : IsObjArr(h[n].t) /\ \E off, k \in 0..2 : LET R == Remove(St(h), n, off, k) IN
   Refused(R) \/ Apply(R, Local(R, {n}) /\ Len(R.h[n].v) = (IF R.r = 1 THEN Len(h[n].v) - k ELSE Len(h[n].v)) /\ R.r = (IF k = 0 \/ off + k <= Len(h[n].v) THEN 1 ELSE 0))
OpCompress == \E n \in 1..N : IsObjArr(h[n].t) /\ LET R == CompressA(St(h), n) IN Refused(R) \/ Apply(R, Local(R, {n}) /\ \A i \in 1..Len(R.h[n].v) : R.h[n].v[i] # 0)
OpSelect == \E n \in 1..N : h[n].t.k = "u" /\ ~h[n].im /\ \E i \in -2..2 : LET R == Select(St(h), n, i) IN
   Refused(R) \/ Apply(R, /\ Local(R, {n}) /\ R.h[n].v.sel = i /\ (~IsVariant(h[n].t) /\ i = h[n].v.sel => Same(R)) /\ R.ps = <<>>
      /\ (i # -1 /\ i # h[n].v.sel => Val(R.h, R.r) = Default(h[n].t.f[i + 1])))
(* a value given to a union belongs to nobody else: then everything owned is a tree *)
Free(c) == h[c].p = 0 /\ \A i \in 1..N : LET ks == Kids(h[i]) IN \A j \in 1..Len(ks) : ks[j] # c
OpSet == \E n, c \in 1..N : Free(c) /\ h[n].t.k = "u" /\ ~h[n].im /\ ~Reach(h, c, n) /\ \E i \in -1..1 : LET R == SetU(St(h), n, i, c) IN
   Refused(R) \/ Apply(R, Local(R, {n}) /\ R.h[n].v = [sel |-> i, c |-> c] /\ Once(R, n))
Shared(a, b) == Owned(h, a) \cap Owned(h, b) # {}
OpCopy == \E n, s \in 1..N : ~Reach(h, s, n) /\ ~Reach(h, n, s) /\ ~Shared(n, s) /\ (h[n].im \/ ~Frozen(Owned(h, n))) /\ LET R == Copy(St(h), n, s) IN
   Refused(R) \/ Apply(R, /\ Val(R.h, n) = Val(h, s) /\ Local(R, Owned(h, n)) /\ Val(R.h, s) = Val(h, s)
      /\ \A i \in Below(h, n) : R.h[i].p = h[i].p /\ R.h[i].t = h[i].t
      /\ Below(R.h, n) = Below(h, n)
      /\ Owned(R.h, n) \cap Owned(R.h, s) = {} /\ Posted(R, Owned(R.h, n)))
OpCopyM == \E n, s \in 1..N : h[n].t.k = "st" /\ h[n].t = h[s].t /\ ~Reach(h, s, n) /\ ~Reach(h, n, s) /\ ~Shared(n, s) /\ ~Frozen(Owned(h, n)) /\ \E m \in SUBSET (0..NF(h[n].t) - 1) : LET R == CopyM(St(h), n, s, m, 0) IN
   Apply(R, Val(R.h, n) = UpdM(h[n].t, Val(h, n), Val(h, s), m, 0) /\ Local(R, Owned(h, n)) /\ Val(R.h, s) = Val(h, s) /\ Owned(R.h, n) \cap Owned(R.h, s) = {})
OpClone == \E s \in 1..N : LET R == Clone(St(h), s) IN
   Apply(R, Same([h |-> SubSeq(R.h, 1, N)]) /\ R.r > N /\ Val(R.h, R.r) = Val(h, s) /\ R.h[R.r].t = h[s].t /\ \A i \in Owned(R.h, R.r) : i > N /\ ~R.h[i].im)
OpDecode == \E n, s \in 1..N : h[n].t = h[s].t /\ ~Reach(h, s, n) /\ ~Reach(h, n, s) /\ ~Shared(n, s) /\ ~Frozen(Owned(h, n)) /\ \E ru \in BOOLEAN : LET R == Decode(St(h), n, s, ru) IN
   Apply(R, Val(R.h, n) = Val(h, s) /\ Local(R, Owned(h, n)) /\ Below(R.h, n) = Below(h, n)
      /\ \A i \in 1..Len(R.h) : Reach(R.h, n, i) /\ i <= N => Reach(h, n, i))
OpFreeze == \E n \in 1..N : LET R == Freeze(St(h), n) IN Apply(R, \A i \in 1..N : R.h[i] = [h[i] EXCEPT !.im = @ \/ i \in Below(h, n)])
Next == d < Depth /\ (OpPut \/ OpReplace \/ OpLen \/ OpAppend \/ OpRemove \/ OpCompress \/ OpSelect \/ OpSet \/ OpCopy \/ OpCopyM \/ OpClone \/ OpDecode \/ OpFreeze)
Spec == Init /\ [][Next]_vars
Laws == law
WellFormed == WfHeap(h)
(* immutability is never undone *)
Sticks == [][\A i \in 1..Len(h) : h[i].im => h'[i].im]_vars
=============================================================================
