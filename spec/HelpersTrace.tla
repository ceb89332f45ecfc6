---------------------------- MODULE HelpersTrace -----------------------------
(* Conformance: histories on real property helpers.  Every event logs the    *)
(* fields that changed (ch) among all fields of all structures.              *)
EXTENDS Helpers, TraceBase, TLC
VARIABLES nodes, hel
TInit == l = 1 /\ nodes = <<>> /\ hel = <<>>
Obs(e) == [i \in 1..Len(nodes) |->
   IF \E k \in 1..Len(e.ch) : e.ch[k].id = i
   THEN LET c == e.ch[CHOOSE k \in 1..Len(e.ch) : e.ch[k].id = i] IN [nodes[i] EXCEPT !.v = c.v, !.im = c.im] ELSE nodes[i]]
Quiet(e) == e.ch = <<>> /\ UNCHANGED nodes
Refused(e) == ~e.ok /\ Quiet(e)
To(e, ns) == e.ok /\ Obs(e) = ns /\ nodes' = ns
A(e) == hel[e.h].att
K(e) == hel[e.h].kind
SameTime(vs, e) == Normal(e.ns) /\ NanoOf(SVal(e.sec), ZOf(e.ns)) = NanoOf(SVal(vs[1]), SVal(vs[2])) /\ SVal(e.tag) = SVal(vs[3])
Index(att) == SVal(nodes[att[1]].v)
Step(e) ==
  CASE e.op = "tree" -> nodes' = nodes \o e.nodes /\ UNCHANGED hel
    [] e.op = "helper" -> hel' = Append(hel, [kind |-> e.kind, att |-> <<>>]) /\ UNCHANGED nodes /\ ~e.att
    [] e.op = "attach" -> LET a == Attach(nodes, e.n, K(e)) IN
         e.ok /\ e.r = (a # <<>>) /\ hel' = [hel EXCEPT ![e.h].att = a] /\ Quiet(e)
    [] e.op = "detach" -> e.ok /\ hel' = [hel EXCEPT ![e.h].att = <<>>] /\ Quiet(e)
    [] e.op = "isatt" -> e.ok /\ e.r = (A(e) # <<>>) /\ Quiet(e) /\ UNCHANGED hel
    [] e.op = "get" -> UNCHANGED hel /\ Quiet(e) /\
         IF A(e) = <<>> THEN ~e.ok
         ELSE LET vs == Values(nodes, A(e)) IN
              IF K(e) = "alarm" /\ ~AlarmOk(vs) THEN ~e.ok
              ELSE e.ok /\ IF K(e) = "time" THEN SameTime(vs, e) ELSE e.v = vs
    [] e.op = "set" -> UNCHANGED hel /\
         IF A(e) = <<>> THEN Refused(e)
         ELSE IF Locked(nodes, A(e)) THEN e.ok /\ ~e.r /\ Quiet(e)
         ELSE e.r = (Differs(nodes, A(e), e.v) # {}) /\ To(e, Written(nodes, A(e), e.v))
    [] e.op = "setindex" -> UNCHANGED hel /\
         IF A(e) = <<>> THEN Refused(e) ELSE IF nodes[A(e)[1]].im THEN e.ok /\ ~e.r /\ Quiet(e)
         ELSE e.r /\ To(e, [nodes EXCEPT ![A(e)[1]].v = e.v])
    [] e.op = "setchoices" -> UNCHANGED hel /\
         IF A(e) = <<>> THEN Refused(e) ELSE IF nodes[A(e)[2]].im THEN e.ok /\ ~e.r /\ Quiet(e)
         ELSE e.r /\ To(e, [nodes EXCEPT ![A(e)[2]].v = e.v])
    [] e.op = "choice" -> UNCHANGED hel /\ Quiet(e) /\
         IF A(e) = <<>> THEN ~e.ok
         ELSE LET c == nodes[A(e)[2]].v IN
              /\ e.ok /\ e.ix = nodes[A(e)[1]].v /\ e.num = Len(c) /\ e.mut = ~nodes[A(e)[2]].im
              /\ IF ZLe(ZZero, Index(A(e))) /\ ZLt(Index(A(e)), ZOf(Len(c)))
                 THEN \E i \in 1..Len(c) : ZOf(i - 1) = Index(A(e)) /\ e.v = c[i] ELSE e.v = <<>>
    [] e.op = "put" -> To(e, [nodes EXCEPT ![e.n].v = e.v]) /\ UNCHANGED hel
    [] e.op = "freeze" -> To(e, [i \in 1..Len(nodes) |-> IF UnderN(nodes, i, e.n) THEN [nodes[i] EXCEPT !.im = TRUE] ELSE nodes[i]]) /\ UNCHANGED hel
TNext == /\ l <= TLen /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op = "Start" THEN nodes' = <<>> /\ hel' = <<>> ELSE Step(e)
TSpec == TInit /\ [][TNext]_<<l, nodes, hel>>
=============================================================================
