--------------------------- MODULE RequestsTrace ----------------------------
(* C23.  e.s: text; e.ok and the tree e.r: [n names, f fields] of structures *)
(* and [v text]; e.msg: is there a message                                   *)
EXTENDS Requests, TraceBase
vars == <<l>>
TInit == l = 1
(* the structure which n describes *)
RECURSIVE Tree(_)
OptTree(o) == [n |-> [i \in 1..Len(o) |-> o[i].n], f |-> [i \in 1..Len(o) |-> [v |-> o[i].v]]]
Tree(x) == LET h == IF x.o = <<>> THEN 0 ELSE 1 IN
  [n |-> [i \in 1..Len(x.c) + h |-> IF i <= h THEN OptionsName ELSE x.c[i - h].n],
   f |-> [i \in 1..Len(x.c) + h |-> IF i <= h THEN OptTree(x.o) ELSE Tree(x.c[i - h])]]
Top(c) == Tree(Node(<<>>, <<>>, c))
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op = "req" -> LET c == Class(e.s) IN
         /\ (e.how = "object" => e.msg = ~e.ok)
         /\ CASE c.k = "ok" -> e.ok /\ e.r = Top(c.c)
              [] c.k = "bad" -> ~e.ok
              [] OTHER -> TRUE
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
