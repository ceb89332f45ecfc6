---------------------------- MODULE PVHeapTrace -----------------------------
(* Conformance: histories of operations on real PVField objects.  Every     *)
(* event carries the operation, whether it threw, its result, the handlers  *)
(* it called (what they saw) and every field whose content, parent or       *)
(* mutability differs from before (ch), among all fields ever seen (n).     *)
EXTENDS PVHeap, TraceBase
VARIABLES h, hd          \* the heap; the handler registered with each field (0: none)
TInit == l = 1 /\ h = <<>> /\ hd = <<>>
B(x) == x = 1
Do(e, ru) ==
  LET S == St(h) IN
  CASE e.op = "new" -> Alloc(S, e.t, 0)
    [] e.op = "put" -> Put(S, e.n, e.v)
    [] e.op = "replace" -> Replace(S, e.n, e.v)
    [] e.op = "setlen" -> SetLength(S, e.n, e.k, e.tail)
    [] e.op = "swap" -> Swap(S, e.n, e.v)
    [] e.op = "append" -> AppendN(S, e.n, e.k)
    [] e.op = "remove" -> Remove(S, e.n, e.off, e.k)
    [] e.op = "compress" -> CompressA(S, e.n)
    [] e.op = "setcap" -> IF S.h[e.n].im THEN Refuse(S.h) ELSE IF LenOk(S.h[e.n].t, e.k) THEN S ELSE Refuse(S.h)
    [] e.op = "select" -> Select(S, e.n, e.i)
    [] e.op = "selname" -> SelectName(S, e.n, e.nm)
    [] e.op = "set" -> SetU(S, e.n, e.i, e.c)
    [] e.op = "setname" -> SetName(S, e.n, e.nm, e.c)
    [] e.op = "setcur" -> SetCur(S, e.n, e.c)
    [] e.op = "copy" -> Ret(Copy(S, e.n, e.s), 0)
    [] e.op = "copyu" -> Ret(CopyU(S, e.n, e.s), 0)
    [] e.op = "copym" -> Ret(CopyM(S, e.n, e.s, IF e.inv THEN (0..e.nf) \ SeqToSet(e.m) ELSE SeqToSet(e.m), e.base), 0)
    [] e.op = "clone" -> Clone(S, e.s)
    [] e.op = "decode" -> Ret(Decode(S, e.n, e.s, ru), 0)
    [] e.op = "build" -> Build(S, e.nm, e.cs)
    [] e.op = "freeze" -> Freeze(S, e.n)
    [] e.op = "post" -> Post(S, e.n)
    [] e.op = "handler" -> IF hd[e.n] \in {0, e.k} THEN S ELSE Refuse(S.h)
    [] e.op = "view" -> S
Handled(p) == IF p.n <= Len(hd) THEN hd[p.n] # 0 ELSE FALSE
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Observed(e) ==
  LET has(i) == {k \in 1..Len(e.ch) : e.ch[k].id = i} IN
  [i \in 1..e.cnt |-> IF has(i) = {} THEN h[i]
                      ELSE LET c == e.ch[CHOOSE k \in has(i) : TRUE] IN
                           [t |-> IF i <= Len(h) THEN h[i].t ELSE c.t, v |-> c.v, p |-> c.p, im |-> c.im]]
IsId(e) == e.op \in {"new", "select", "selname", "clone", "build"}
Step(e, ru) ==
  LET R == Canon(Do(e, ru), Len(h), IsId(e))
      obs == Observed(e) IN
  /\ e.ok = R.ok
  /\ R.ok => e.r = R.r
  /\ e.cnt = Len(R.h)
  /\ obs = R.h
  /\ e.ps = SelectSeq(R.ps, Handled)
  /\ e.vw = 0                    \* no earlier view shows anything else than before
  /\ h' = R.h
  /\ hd' = [i \in 1..Len(R.h) |-> IF i > Len(hd) THEN 0 ELSE IF e.op = "handler" /\ e.ok /\ i = e.n THEN e.k ELSE hd[i]]
TNext == /\ l <= TLen /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op = "Start" THEN h' = <<>> /\ hd' = <<>>
            ELSE \/ Step(e, TRUE)
                 \/ e.op = "decode" /\ ~ENABLED Step(e, TRUE) /\ Step(e, FALSE)
TSpec == TInit /\ [][TNext]_<<l, h, hd>>
=============================================================================
