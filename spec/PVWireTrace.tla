----------------------------- MODULE PVWireTrace ----------------------------
(* Judges recorded serializations of values, partial values and types.      *)
EXTENDS PVTypes, TraceBase
tvars == <<l>>
SliceOf(v, off, cnt) == Slice(v, off, cnt)
Judge(e) ==
  CASE e.op = "val" -> LET B == Enc(e.t, e.src, e.bo) IN
         /\ Wf(e.t, e.src) /\ e.ex = "" /\ e.bytes = B /\ e.got = e.src /\ e.after = e.src
         /\ B # <<>> => e.used = Len(B)
    [] e.op = "mask" -> LET m == SeqToSet(e.m)  B == EncM(e.t, e.src, m, e.base, e.bo) IN
         /\ e.ex = "" /\ e.bytes = B /\ e.used = Len(B) /\ e.after = e.src /\ e.m2
         /\ e.got = UpdM(e.t, e.pre, e.src, m, e.base)
    [] e.op = "slice" -> LET p == SliceOf(e.v, e.off, e.cnt) IN
         /\ e.after = e.v
         /\ IF e.t.k = "sa" /\ e.t.b = "f" /\ Len(p) # e.t.n THEN e.ex # ""
            ELSE e.ex = "" /\ e.bytes = Enc(e.t, p, e.bo)
    [] e.op = "type" -> LET B == EncT(e.t, e.bo) IN
         /\ e.ex = "" /\ e.bytes = B /\ e.used = Len(B) /\ e.got = e.t /\ e.same /\ e.eq
         /\ e.ex2 = "" /\ e.got2 = e.t /\ e.used2 = Len(B)
TInit == l = 1
TNext == LET e == Trace[l] IN
  /\ l <= TLen /\ l' = l + 1
  /\ \/ e.op = "Start"
     \/ e.op \in {"val", "mask", "slice", "type"} /\ Judge(e)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
