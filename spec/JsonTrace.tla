----------------------------- MODULE JsonTrace ------------------------------
(* C25, C26.  x: the text; d: <<position, double>> for what looks like a     *)
(* number in it; hm, m: a mask is given; j5: JSON5 asked for                 *)
EXTENDS JsonIn, TraceBase
vars == <<l>>
TInit == l = 1
DF(e) == [p \in {e.d[i][1] : i \in 1..Len(e.d)} |-> e.d[CHOOSE i \in 1..Len(e.d) : e.d[i][1] = p][2]]
(* C25: printing: c compact, x with line breaks *)
Says(e, M, s) == LET d == Doc(s) IN d.ok /\ (e.j5 \/ ~d.x) /\ Den(e.t, e.v, d.j, 0, M, ~e.hm)
PrintOk(e) ==
  LET M == IF e.hm THEN SeqToSet(e.m) ELSE ALL IN
  IF e.hm /\ ~Shown(e.t, 0, M) THEN e.ex = "" /\ e.c = <<>> /\ e.x = <<>>
  ELSE IF ~e.j5 /\ Unsayable(e.t, e.v, 0, M, ~e.hm) THEN e.ex # ""
  ELSE e.ex = "" /\ Squeeze(e.x) = e.c /\ Says(e, M, e.c)
(* reading it back *)
RECURSIVE Restored(_, _, _)
ResS(t, a, b) ==
  IF t \notin Flts THEN a = b
  ELSE LET f == Flt(a) IN IF f.k = "nan" THEN Flt(b).k = "nan" ELSE IF t = "float" /\ f.k = "fin" THEN f.m = <<>> \/ DCmp(Mag(f), FltMin("float") @@ [s |-> 1]) <= 0 \/ a = b ELSE a = b
Restored(t, a, b) ==
  CASE t.k = "s" -> ResS(t.t, a, b)
    [] t.k = "sa" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : ResS(t.t, a[i], b[i])
    [] t.k = "st" -> \A i \in 1..Len(t.f) : Restored(t.f[i], a.f[i], b.f[i])
    [] t.k = "sta" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : b[i] # Null /\ Restored(t.e, a[i], b[i])
    [] OTHER -> FALSE
(* C26 *)
Into(e) ==
  LET d == Doc(e.x)  D == DF(e) IN
  IF ~d.ok THEN d.x \/ (e.ex # "" /\ (e.t.k = "st" => Untouched(e.t, e.x, e.v, e.v2)))
  ELSE IF Wild(d.j) THEN TRUE
  ELSE LET a == May(e.t, d.j, D) IN
    IF ~DOk(d.j, D) THEN FALSE
    ELSE IF e.ex # "" THEN (d.x \/ a # "ok") /\ (e.t.k = "st" => Untouched(e.t, e.x, e.v, e.v2))
    ELSE IF a = "no" THEN FALSE
    ELSE Now(e.t, d.j, D, e.v, e.v2) /\ (e.hm => SeqToSet(e.m) = {e.base + o : o \in AssignedTo(Assigns(e.t, 0, d.j))})
AnyOk(e) ==
  LET d == Doc(e.x)  D == DF(e) IN
  IF ~d.ok THEN d.x \/ e.ex # ""
  ELSE IF Wild(d.j) THEN TRUE
  ELSE IF ~DOk(d.j, D) THEN FALSE
  ELSE LET r == New(d.j, D) IN
    IF e.ex # "" THEN d.x \/ r.st # "ok"
    ELSE IF r.st = "any" THEN TRUE ELSE r.st = "ok" /\ e.t = TypeOfN(r.n) /\ e.v = ValOfN(r.n)
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op \in {"print", "bigulong"} -> PrintOk(e)
    [] e.op = "back" -> e.ex = "" /\ Restored(e.t, e.v, e.v2)
    [] e.op = "into" -> Into(e)
    [] e.op = "any" -> AnyOk(e)
    [] e.op = "io" -> e.ex # ""                 \* the stream failed
    [] e.op = "deepany" -> IF e.n <= 128 THEN e.ex = "" /\ e.got = e.n ELSE e.ex # ""
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l]) = TRUE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
