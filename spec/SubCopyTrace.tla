---------------------------- MODULE SubCopyTrace ----------------------------
(* C21.  from, to: before; from2, to2: after; -1: a huge number.  max: the   *)
(* bound of the target, or -1; vw: views taken before that now differ        *)
EXTENDS SubCopy, TraceBase, Integers
vars == <<l>>
TInit == l = 1
NotHuge(x) == x # -1
Legal(e) ==
  /\ ~e.im /\ e.fs # 0 /\ e.ts # 0 /\ e.same
  /\ NotHuge(e.n) /\ (IF e.fo = -1 THEN e.n = 0 ELSE IF e.fs = -1 THEN e.n <= (IF e.fo < Len(e.from) THEN 1 ELSE 0) ELSE e.n <= MaxCount(Len(e.from), e.fo, e.fs))
  /\ (IF e.off = -1 THEN e.n = 0 ELSE e.ts # -1 \/ e.n <= 1)
Ts(e) == IF e.ts = -1 THEN 1 ELSE e.ts
Fs(e) == IF e.fs = -1 THEN 1 ELSE e.fs
After(e) == IF e.n = 0 THEN e.to ELSE Sub(e.to, e.from, e.fo, Fs(e), e.off, Ts(e), e.n, e.z)
Fits(e) == LET k == Len(After(e)) IN e.max = -1 \/ (IF e.fix THEN k = e.max ELSE k <= e.max)
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op = "sub" -> /\ e.vw = 0
                       /\ IF Legal(e) THEN (e.ok = Fits(e)) ELSE ~e.ok
                       /\ e.to2 = (IF e.ok THEN After(e) ELSE e.to)
                       /\ e.from2 = (IF e.self /\ e.ok THEN After(e) ELSE e.from)
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
