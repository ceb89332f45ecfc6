---------------------------- MODULE ValueBTrace -----------------------------
(* C29.  One builder; p: the path of the part of it an operation is used on  *)
EXTENDS ValueB, TraceBase
VARIABLE b
vars == <<l, b>>
TInit == l = 1 /\ b = NewNode(<<>>)
At(e) == AtPath(b, e.p)
Put(e, ok, m) == /\ (e.ex = "") = ok /\ b' = (IF ok THEN PutPath(b, e.p, m) ELSE b)
BuildOk(e) == e.p = <<>> /\ NamesOk(b)
Step(e) ==
  CASE e.op = "Start" -> /\ e.ex = "" \* (a structure to clone is logged as the first "clone")
                         /\ b' = NewNode(e.id)
    [] e.op = "clone" -> LET ok == CanFill(NewNode(e.t.id), e.t) IN
         /\ (e.ex = "") = ok /\ b' = (IF ok THEN Fill(NewNode(e.t.id), e.t, e.v) ELSE NewNode(<<>>))
    [] e.op = "add" -> IF LeafOk(At(e), e.n) THEN Put(e, TRUE, AddLeaf(At(e), e.n, e.t, e.v)) ELSE Put(e, FALSE, b)
    [] e.op = "struct" -> LET ok == NestOk(At(e), e.n) /\ (LET m == AddNest(At(e), e.n, e.t.id) IN CanFill(m.c[e.n], e.t)) IN
         IF ok THEN Put(e, TRUE, LET m == AddNest(At(e), e.n, e.t.id) IN SetKid(m, e.n, Fill(m.c[e.n], e.t, e.v)))
         ELSE e.ex # "" /\ e.last /\ UNCHANGED b              \* may be partly added
    [] e.op = "nest" -> IF e.st /\ NestOk(At(e), e.n) THEN Put(e, TRUE, AddNest(At(e), e.n, e.id)) ELSE Put(e, FALSE, b)
    [] e.op = "end" -> UNCHANGED b /\ (e.ex = "") = (e.p # <<>>) /\ e.up
    [] e.op = "build" -> /\ UNCHANGED b /\ (e.ex = "") = BuildOk(e)
                         /\ (IF e.ex = "" THEN e.t = TypeOfN(b) /\ e.v = ValOfN(b) /\ e.v2 = e.v /\ e.t2 = e.t ELSE TRUE)
    [] e.op = "done" -> UNCHANGED b /\ e.lost = 0
    [] OTHER -> FALSE /\ UNCHANGED b
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
