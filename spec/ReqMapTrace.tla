---------------------------- MODULE ReqMapTrace -----------------------------
(* C24.  Two mappers m[1], m[2].                                             *)
EXTENDS ReqMap, TraceBase
VARIABLE m
vars == <<l, m>>
TInit == l = 1 /\ m = <<None, None>>
Same(s, x) == IF s = None THEN x.none ELSE ~x.none /\ x.base = s.base /\ x.req = s.req /\ SeqToSet(x.mask) = s.mask
Empty2(q) == ~q.has \/ q.f.n = <<>>
Rq(q) == IF Empty2(q) THEN [k |-> "st", n |-> <<>>, f |-> <<>>] ELSE q.f
(* copy from requested to base: r2b *)
Dir(s, r2b) == IF r2b THEN Swapped(s.map) ELSE s.map
Step(e) ==
  CASE e.op = "Start" -> m' = <<None, None>>
    [] e.op = "compute" ->
         LET q == Rq(e.q)  ok == e.top /\ SelOk(e.t, q)  s == Mapper(e.t, q, e.keep = "yes", e.mask) IN
         /\ e.ex = (IF ok THEN "" ELSE IF ~e.top THEN "logic" ELSE "runtime")
         /\ m' = (IF ok THEN [m EXCEPT ![e.i] = s] ELSE m)
         /\ Same(m'[e.i], e.s)
         /\ (IF ok THEN (IF Deep(e.t, q, 0) THEN TRUE ELSE e.warn = (e.keep = "bad" \/ Warn(e.t, q, 0))) ELSE ~e.rewarned)
    [] e.op = "reset" -> m' = [m EXCEPT ![e.i] = None] /\ Same(None, e.s) /\ ~e.warn
    [] e.op = "swap" -> m' = <<m[2], m[1]>> /\ Same(m[2], e.s1) /\ Same(m[1], e.s2)
    [] e.op = "assign" -> m' = [m EXCEPT ![e.i] = m[3 - e.i]] /\ Same(m[3 - e.i], e.s)
    [] e.op = "build" -> /\ UNCHANGED m /\ IF m[e.i] = None THEN e.ex = "logic" ELSE
                           e.ex = "" /\ e.rt = m[e.i].req /\ e.bt = m[e.i].base /\ e.r = Default(e.rt) /\ e.b = Default(e.bt)
    [] e.op = "copy" ->
         LET s == m[e.i]  map == Dir(s, e.r2b)  ft == IF e.r2b THEN s.req ELSE s.base  tt == IF e.r2b THEN s.base ELSE s.req
             fm == SeqToSet(e.fm)  md == Marks(map, ft, fm, SeqToSet(e.tm)) IN
         /\ UNCHANGED m
         /\ e.ex = "" /\ SeqToSet(e.tm2) = md /\ SeqToSet(e.only) = md /\ SeqToSet(e.fm2) = fm
         /\ e.from2 = e.from /\ Flat(tt, e.to2) = Copied(map, ft, e.from, tt, e.to, fm)
    [] OTHER -> FALSE /\ UNCHANGED m
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
