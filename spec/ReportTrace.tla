---------------------------- MODULE ReportTrace -----------------------------
(* C40.  n: number of tests made so far                                      *)
EXTENDS Report, TraceBase
VARIABLE n
vars == <<l, n>>
TInit == l = 1 /\ n = 0
Tests(e) == IF e.op \in {"equal", "differ", "true", "text", "throws", "field", "array"} THEN 1 ELSE 0
IntOf(b) == (IF b[1] > 127 THEN b[1] - 256 ELSE b[1]) * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]
Tx(t, v) == CASE t = "int" -> SDec(IntOf(v)) [] t = "string" -> v
Cm(e) == Compared(e.t, e.v, e.name, e.k, e.s)
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op = "throw" ->      \* one exception; what1: before, what2: after it was shown; copy: what of a copy
         /\ e.caught
         /\ e.mixed = e.macro
         /\ IF e.macro THEN ShownOk(e.shown, e.line, e.file) /\ PrintedOk(e.printed, e.line, e.file) ELSE e.shown = <<>> /\ e.printed = <<>>
         /\ LET m == UpTo(e.msg, 0)  w == IF e.base THEN BaseWhat(m, e.mixed, e.shown) ELSE m IN e.what1 = w /\ e.what2 = w /\ e.copy = w
    [] e.op = "equal" -> e.out = Result(e.l = e.r, n + 1, CmpText(e.nl, Tx(e.s, e.l), EQ, e.nr, Tx(e.s, e.r), e.more))
    [] e.op = "differ" -> e.out = Result(e.l # e.r, n + 1, CmpText(e.nl, Tx(e.s, e.l), NE, e.nr, Tx(e.s, e.r), e.more))
    [] e.op = "true" -> e.out = Result(e.b, n + 1, e.nl \o e.more)
    [] e.op = "text" -> e.out = Result(e.b, n + 1, e.more)
    [] e.op = "show" -> e.out = Shown(e.more)
    [] e.op = "throws" -> CASE e.did = "expected" -> e.out = <<ResLine(TRUE, n + 1, CAUGHT \o e.msg)>>
                            [] OTHER -> e.out = <<ResLine(FALSE, n + 1, UNEXP \o e.code)>>
    [] e.op = "field" -> IF ~e.given THEN e.out = Result(FALSE, n + 1, NULLTX \o e.more)
         ELSE LET c == Cm(e) IN
              IF c.ok THEN e.out = Result(c.v = e.want, n + 1, e.name \o LP \o Tx(e.s, c.v) \o EQ \o Tx(e.s, e.want) \o e.more)
              ELSE /\ Len(e.out) >= 1 /\ IsPre(ResLine(FALSE, n + 1, FIELDQ \o e.name \o TYPEQ), e.out[1])
                   /\ LET L == LinesOf(ABSENT \o e.more) IN IsSuf(L[1], e.out[1]) /\ Len(e.out) = Len(L) /\ \A i \in 2..Len(L) : e.out[i] = Note(L[i])
    [] e.op = "array" -> IF ~e.given THEN e.out = Result(FALSE, n + 1, NULLTX \o e.more)
         ELSE LET c == Cm(e) IN
              IF c.ok THEN Len(e.out) >= 1 /\ IsPre(ResLine(c.v = e.want, n + 1, e.name \o LP), e.out[1])
              ELSE Len(e.out) >= 1 /\ IsPre(ResLine(FALSE, n + 1, FIELDQ \o e.name \o TYPEQ), e.out[1])
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ n' = (IF Trace[l].op = "Start" THEN Trace[l].n ELSE n + Tests(Trace[l])) /\ Step(Trace[l]) = TRUE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
