--------------------------- MODULE ScalarArrTrace ---------------------------
(* e.as: every array after the operation [v, cap, im, cm]; vw: views taken  *)
(* earlier that show something else than then                               *)
EXTENDS ScalarArr, TraceBase
VARIABLES S
vars == <<l, S>>
TInit == l = 1 /\ S = <<>>
Cap(e) == e.as[e.a].cap
Obs(e, i) == e.as[i]
Check(e, T) == /\ Len(e.as) = Len(T) /\ e.vw = 0
               /\ \A i \in 1..Len(T) : LET o == e.as[i] IN o.v = T[i].v /\ o.cap = T[i].cap /\ o.im = T[i].im /\ o.cm = CapMutable(T[i]) /\ o.cap >= Len(o.v)
               /\ S' = T
Res(e, R) == e.ok = R.ok /\ Check(e, [S EXCEPT ![e.a] = R.a])
Added(e) == LET v == e.as[e.a].v  k == Len(S[e.a].v) IN IF Len(v) > k THEN SubSeq(v, k + 1, Len(v)) ELSE <<>>
Step(e) ==
  CASE e.op = "Start" -> S' = <<>>
    [] e.op = "new" -> LET o == e.as[Len(S) + 1]  v0 == IF e.b = "f" THEN [i \in 1..e.n |-> e.z] ELSE <<>> IN Check(e, Append(S, Arr(e.b, e.n, v0, o.cap)))
    [] e.op = "setlen" -> Res(e, SetLength(S[e.a], e.k, Added(e), Cap(e))) /\ (e.ok => Len(e.as[e.a].v) = e.k)
    [] e.op = "setcap" -> (e.ok => Cap(e) >= e.k) /\ Res(e, SetCapacity(S[e.a], e.k, Cap(e)))
    [] e.op = "capmut" -> Res(e, SetCapMutable(S[e.a], e.m))
    [] e.op = "immut" -> Res(e, SetImmutable(S[e.a]))
    [] e.op = "replace" -> Res(e, Replace(S[e.a], e.v, Cap(e)))
    [] e.op = "swap" -> LET R == Swap(S[e.a], e.v, Cap(e)) IN Res(e, R) /\ e.r = (IF R.ok THEN R.r ELSE e.v)
    [] e.op = "reuse" -> LET R == Swap(S[e.a], <<>>, Cap(e)) IN Res(e, R) /\ (R.ok => e.r = R.r)
    [] e.op = "copy" -> Res(e, IF e.s = e.a /\ ~S[e.a].im THEN Acc(S[e.a]) ELSE CopyFrom(S[e.a], S[e.s].v, Cap(e)))
    (* from an array of another element type; v: its elements in this type *)
    [] e.op = "copyx" -> Res(e, CopyFrom(S[e.a], e.v, Cap(e)))
    [] e.op = "get" -> e.r = S[e.a].v /\ e.len = Len(S[e.a].v) /\ Check(e, S)
    [] e.op = "at" -> e.ok = (e.i < Len(S[e.a].v)) /\ (e.ok => e.x = S[e.a].v[e.i + 1]) /\ Check(e, S)
    [] e.op = "view" -> e.r = S[e.a].v /\ Check(e, S)
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
