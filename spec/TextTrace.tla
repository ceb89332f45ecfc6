----------------------------- MODULE TextTrace ------------------------------
(* C38.  x: the text; n: the stream's indentation, n2 afterwards; g: texts   *)
(* of floating point numbers, by type and value                              *)
EXTENDS Text, TraceBase
vars == <<l>>
TInit == l = 1
GOf(e) == [k \in {<<e.g[i].t, e.g[i].v>> : i \in 1..Len(e.g)} |-> e.g[CHOOSE i \in 1..Len(e.g) : <<e.g[i].t, e.g[i].v>> = k].x]
GOk(e) == \A i \in 1..Len(e.g) : Good("string", e.g[i].t, e.g[i].v, e.g[i].x)
Kept(e) == e.n2 = e.n /\ e.same
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op = "esc" -> e.c = EscT(e.s, FALSE) /\ e.csv = EscT(e.s, TRUE) /\ e.q = MaybeQ(e.s) /\ Unesc(e.c, 1) = e.s
    [] e.op = "type" -> e.x \in {TText(e.t, e.n, TRUE), TText(e.t, e.n, FALSE)} /\ e.n2 = e.n
    [] e.op = "dump" -> GOk(e) /\ Kept(e) /\ e.x = Dump(e.t, e.v, e.nm, e.n, GOf(e)) /\ e.s = Dump(e.t, e.v, e.nm, 0, GOf(e)) \o NL
    [] e.op = "elem" -> GOk(e) /\ Kept(e) /\
         (IF IsLeaf(e.t) THEN (IF e.i < Len(e.v) THEN e.ex = "" /\ e.x = Sc(e.t.t, e.v[e.i + 1], GOf(e)) ELSE e.ex # "")
          ELSE e.ex = "" /\ e.x = (IF e.i >= Len(e.v) THEN <<>> ELSE IF e.v[e.i + 1] = Null THEN Ind(e.n) \o NONE \o NL ELSE Dump(e.t.e, e.v[e.i + 1], <<>>, e.n, GOf(e))))
    [] e.op = "raw" -> GOk(e) /\ Kept(e) /\ e.x = RawText(e.t, e.v, e.n, SeqToSet(e.m), SeqToSet(e.hm), GOf(e))
    [] e.op = "nt" -> GOk(e) /\ Kept(e) /\ e.x = NtText(e.t, e.v, e.n, SeqToSet(e.m), SeqToSet(e.hm), GOf(e))
    [] e.op = "json" -> Kept(e) /\ e.x = e.j \o NL       \* j: the document (C25)
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l]) = TRUE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
