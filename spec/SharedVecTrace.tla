--------------------------- MODULE SharedVecTrace ---------------------------
(* e.hs: what every handle shows after the operation                        *)
(*  [ro, vd, n, cap, u (unique), v (elements), g (same storage, 0 none),     *)
(*   t (custom storage, 0 none), in (window inside its storage), ty (original type is right)] *)
EXTENDS SharedVec, TraceBase
VARIABLES V, tag
vars == <<l, V, tag>>
TInit == l = 1 /\ V = V0 /\ tag = [x \in {} |-> 0]
Hs(e) == 1..Len(e.hs)
Tag(W, tg, h) == LET s == W.h[h].st IN IF s \in DOMAIN tg THEN tg[s] ELSE 0
Matches(e, W, tg) ==
  /\ \A h \in Hs(e) : LET o == e.hs[h]  x == W.h[h] IN
       /\ o.n = x.n /\ o.cap = x.cap /\ o.v = View(W, h) /\ o.u = Unique(W, h) /\ (o.g = 0) = (x.st = 0)
       /\ o.t = Tag(W, tg, h) /\ o.in /\ (x.vd /\ x.n > 0 => o.ty)
  /\ \A h, g \in Hs(e) : e.hs[h].g # 0 => (e.hs[h].g = e.hs[g].g) = (W.h[h].st = W.h[g].st)
  (* a custom storage is given back exactly when the last handle goes *)
  /\ SeqToSet(e.freed) = {tag[s] : s \in {q \in DOMAIN tag : q \in DOMAIN V.mem /\ q \notin DOMAIN W.mem}} \cup (IF "lost" \in DOMAIN e THEN {e.lost} ELSE {})
  /\ Cardinality(SeqToSet(e.freed)) = Len(e.freed)
To(e, W, tg) == LET t2 == [s \in {q \in DOMAIN tg : q \in DOMAIN W.mem} |-> tg[s]] IN Matches(e, W, t2) /\ V' = W /\ tag' = t2
Same(e) == To(e, V, tag)
O(e) == e.hs[e.h]
(* h becomes the only owner: elements as observed, the survivors in front; it may have kept its storage, if it was alone *)
Mutate(e, k, c) ==
  LET o == O(e)  old == View(V, e.h)  x == V.h[e.h]
      W == IF o.g = 0 THEN Clear(V, e.h) ELSE Own(V, e.h, l, c, o.cap)
      t == Tag(V, tag, e.h) IN
  /\ Len(c) >= k /\ SubSeq(c, 1, k) = SubSeq(old, 1, k) /\ o.cap >= Len(c)
  /\ (o.g = 0 => c = <<>>)
  /\ IF o.t # 0 THEN /\ o.t = t /\ Unique(V, e.h)
                     /\ To([e EXCEPT !.freed = @ \o <<t>>], W, Upd(tag, l, t))
                ELSE To(e, W, tag)
Step(e) ==
  CASE e.op = "Start" -> /\ V' = [V0 EXCEPT !.h = [h \in Hs(e) |-> NullH(e.hs[h].ro, e.hs[h].vd)]] /\ tag' = [x \in {} |-> 0]
    (* fresh storage; c: the elements asked for, or nothing said *)
    [] e.op = "new" -> LET o == O(e) IN /\ o.n = e.n /\ o.cap >= o.n /\ ("c" \in DOMAIN e => o.v = e.c)
         /\ To(e, Fresh(V, e.h, l, o.v, o.cap, o.ro, o.vd), IF "tag" \in DOMAIN e THEN Upd(tag, l, e.tag) ELSE tag)
    [] e.op = "drop" -> To(e, Clear(V, e.h), tag)
    [] e.op = "copy" -> To(e, Share(V, e.h, e.g), tag)
    [] e.op = "move" -> To(e, Move(V, e.h, e.g), tag)
    [] e.op = "swap" -> To(e, SwapH(V, e.h, e.g), tag)
    [] e.op = "slice" -> To(e, Slice(V, e.h, e.o, e.k), tag)
    [] e.op = "set" -> To(e, Write(V, e.h, e.i + 1, e.v), tag)
    [] e.op = "reserve" -> O(e).cap >= e.n /\ O(e).n = V.h[e.h].n /\ Mutate(e, V.h[e.h].n, View(V, e.h))
    [] e.op = "resize" -> O(e).n = e.n /\ Mutate(e, Min(e.n, V.h[e.h].n), O(e).v)
    [] e.op = "resizev" -> LET n == V.h[e.h].n IN Mutate(e, Min(e.n, n), [i \in 1..e.n |-> IF i <= n THEN View(V, e.h)[i] ELSE e.v])
    [] e.op = "push" -> Mutate(e, V.h[e.h].n, Append(View(V, e.h), e.v))
    [] e.op = "pop" -> LET x == V.h[e.h] IN To(e, Slice(V, e.h, 0, x.n - 1), tag)
    (* a private copy exactly when the storage is shared *)
    [] e.op = "unique" -> IF Unique(V, e.h) THEN Same(e) ELSE Mutate(e, V.h[e.h].n, View(V, e.h))
    [] e.op = "freeze" -> /\ e.ok = CanFreeze(V, e.g) /\ (IF e.ok THEN To(e, Freeze(V, e.h, e.g), tag) ELSE Same(e))
    [] e.op = "thaw" -> /\ (~Unique(V, e.g) => O(e).cap >= O(e).n) /\ To(e, Thaw(V, e.h, e.g, l, O(e).cap), tag)
    [] e.op = "cast" -> LET x == V.h[e.g]  y == V.h[e.h] IN
         (* a conversion of an empty untyped handle gives an empty one *)
         IF e.conv /\ x.vd /\ ~y.vd /\ x.n = 0 THEN To(e, Clear(V, e.h), tag) ELSE To(e, ShareAs(V, e.h, e.g, y.ro, y.vd), tag)
    [] e.op = "convert" -> e.r = View(V, e.g) /\ e.own /\ Same(e)
    [] e.op = "at" -> e.thrown = (e.i >= V.h[e.h].n) /\ (~e.thrown => e.v = View(V, e.h)[e.i + 1]) /\ Same(e)
    [] e.op = "ends" -> <<e.f, e.b>> = <<View(V, e.h)[1], View(V, e.h)[V.h[e.h].n]>> /\ Same(e)
    [] e.op = "cmp" -> e.eq = (View(V, e.h) = View(V, e.g)) /\ e.ne = ~e.eq /\ Same(e)
    (* an element could not be copied: nothing has changed *)
    [] e.op = "bomb" -> Same(e)
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
