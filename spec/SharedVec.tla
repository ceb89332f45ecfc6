----------------------------- MODULE SharedVec ------------------------------
(* Handles (shared_vector) showing windows on reference counted storage.     *)
(*  V.h  : handle -> [st, off, n, cap, ro, vd]   st 0 is no storage           *)
(*         off, n, cap in elements; vd: the handle is untyped (shows bytes)  *)
(*  V.mem: storage -> sequence of elements                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Wipe(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
V0 == [h |-> [x \in {} |-> 0], mem |-> [x \in {} |-> 0]]
Min(a, b) == IF a < b THEN a ELSE b
NullH(ro, vd) == [st |-> 0, off |-> 0, n |-> 0, cap |-> 0, ro |-> ro, vd |-> vd]
View(V, h) == LET x == V.h[h] IN IF x.st = 0 THEN <<>> ELSE SubSeq(V.mem[x.st], x.off + 1, x.off + x.n)
Holders(V, s) == {h \in DOMAIN V.h : V.h[h].st = s}
Unique(V, h) == V.h[h].st = 0 \/ Cardinality(Holders(V, V.h[h].st)) = 1
Shares(V, h, g) == h # g /\ V.h[h].st # 0 /\ V.h[h].st = V.h[g].st
(* storages nobody holds are gone *)
Collect(V) == [V EXCEPT !.mem = [s \in {q \in DOMAIN @ : Holders(V, q) # {}} |-> @[s]]]
Bind(V, h, x) == Collect([V EXCEPT !.h = Upd(@, h, x)])
Drop(V, h) == Collect([V EXCEPT !.h = Wipe(@, h)])
Clear(V, h) == Bind(V, h, NullH(V.h[h].ro, V.h[h].vd))
(* h becomes the only holder of fresh storage s *)
Fresh(V, h, s, c, cap, ro, vd) == Bind([V EXCEPT !.mem = Upd(@, s, c)], h, [st |-> s, off |-> 0, n |-> Len(c), cap |-> cap, ro |-> ro, vd |-> vd])
(* copy construction, assignment; ro: also the change to read-only or back *)
Share(V, h, g) == Bind(V, h, V.h[g])
ShareAs(V, h, g, ro, vd) == Bind(V, h, [V.h[g] EXCEPT !.ro = ro, !.vd = vd, !.cap = IF vd = V.h[g].vd THEN V.h[g].cap ELSE V.h[g].n])
Move(V, h, g) == IF h = g THEN V ELSE LET x == V.h[g] IN Bind([V EXCEPT !.h = Upd(@, g, NullH(x.ro, x.vd))], h, x)
SwapH(V, h, g) == [V EXCEPT !.h = [@ EXCEPT ![h] = V.h[g], ![g] = V.h[h]]]
Slice(V, h, o, k) == LET x == V.h[h]  oo == Min(o, x.n) IN
   [V EXCEPT !.h = [@ EXCEPT ![h] = [x EXCEPT !.off = x.off + oo, !.n = Min(k, x.n - oo), !.cap = x.cap - oo]]]
Write(V, h, i, v) == LET x == V.h[h] IN [V EXCEPT !.mem = [@ EXCEPT ![x.st] = [@ EXCEPT ![x.off + i] = v]]]
(* every mutator of the shape of the array leaves h the only owner of c      *)
Own(V, h, s, c, cap) == Fresh(V, h, s, c, cap, V.h[h].ro, V.h[h].vd)
CanFreeze(V, h) == Unique(V, h)
(* thaw: a private copy exactly when the storage is shared *)
Thaw(V, h, g, s, cap) == LET x == V.h[g] Q == IF Unique(V, g) THEN V ELSE Own(V, g, s, View(V, g), cap)
                         IN LET M == Move(Q, h, g) IN [M EXCEPT !.h = [@ EXCEPT ![h] = [@ EXCEPT !.ro = FALSE]]]
Freeze(V, h, g) == LET M == Move(V, h, g) IN [M EXCEPT !.h = [@ EXCEPT ![h] = [@ EXCEPT !.ro = TRUE], ![g] = IF g = h THEN [@ EXCEPT !.ro = TRUE] ELSE @]]
=============================================================================
