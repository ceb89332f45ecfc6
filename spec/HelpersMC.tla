------------------------------ MODULE HelpersMC ------------------------------
(* One helper of each kind over small trees: what set writes get reads, a    *)
(* second set changes nothing, nothing but the attached fields is written,   *)
(* and a helper is attached to fields of the right names and types only.     *)
EXTENDS Helpers, TLC
X == <<120>>
Nd(p, nm, t, v) == [p |-> p, nm |-> nm, t |-> t, v |-> v, im |-> FALSE]
SS(t) == [k |-> "s", t |-> t, max |-> 0]
STr == [k |-> "st", id |-> X, n |-> <<>>, f |-> <<>>]
SAs == [k |-> "sa", t |-> "string", b |-> "v", n |-> 0]
I4(x) == <<0, 0, 0, x>>
I8(x) == <<0, 0, 0, 0, 0, 0, 0, x>>
TimeTree == << Nd(0, <<>>, STr, 0), Nd(1, nSeconds, SS("long"), I8(0)), Nd(1, nNano, SS("int"), I4(0)), Nd(1, nTag, SS("int"), I4(0)),
               Nd(1, X, STr, 0), Nd(5, nSeconds, SS("long"), I8(1)), Nd(5, nTag, SS("int"), I4(0)) >>
AlarmTree(third) == << Nd(0, <<>>, STr, 0), Nd(1, nSeverity, SS("int"), I4(0)), Nd(1, nStatus, SS("int"), I4(0)), Nd(1, nMessage, SS(third), IF third = "string" THEN <<>> ELSE I4(0)), Nd(1, X, SS("int"), I4(7)) >>
EnumTree == << Nd(0, <<>>, STr, 0), Nd(1, nIndex, SS("int"), I4(0)), Nd(1, nChoices, SAs, <<>>) >>
Trees == {TimeTree, AlarmTree("string"), AlarmTree("int"), EnumTree}
VARIABLES nodes, hel, d, law
vars == <<nodes, hel, d, law>>
Init == nodes \in Trees /\ hel \in {[kind |-> k, att |-> <<>>] : k \in {"time", "alarm", "enum"}} /\ d = 0 /\ law = TRUE
Val2(t) == CASE t.k = "sa" -> {<<>>, <<<<97>>>>} [] t.t = "string" -> {<<>>, <<97>>} [] t.t = "long" -> {I8(0), I8(1)} [] OTHER -> {I4(0), I4(1), <<255, 255, 255, 255>>}
RECURSIVE Tup(_, _)
Tup(att, i) == IF i = 0 THEN {<<>>} ELSE {Append(x, v) : x \in Tup(att, i - 1), v \in Val2(nodes[att[i]].t)}
DoAttach == \E s \in 1..Len(nodes) : LET a == Attach(nodes, s, hel.kind) IN hel' = [hel EXCEPT !.att = a] /\ law' = (a # <<>> <=> (Suits(nodes, s, hel.kind) \/ (hel.kind = "time" /\ nodes[s].t.k = "st" /\ nodes[s].p # 0 /\ Suits(nodes, nodes[s].p, "time")))) /\ UNCHANGED nodes
DoSet == hel.att # <<>> /\ \E vs \in Tup(hel.att, Len(hel.att)) :
   LET w == IF Locked(nodes, hel.att) THEN nodes ELSE Written(nodes, hel.att, vs) IN
   /\ nodes' = w /\ UNCHANGED hel
   /\ law' = /\ ~Locked(nodes, hel.att) => Values(w, hel.att) = vs /\ Differs(w, hel.att, vs) = {} /\ Written(w, hel.att, vs) = w
             /\ \A i \in 1..Len(nodes) : (\A j \in 1..Len(hel.att) : hel.att[j] # i) => w[i] = nodes[i]
             /\ Differs(nodes, hel.att, vs) = {} => w = nodes
DoPut == \E i \in 1..Len(nodes) : nodes[i].t.k # "st" /\ ~nodes[i].im /\ \E v \in Val2(nodes[i].t) : nodes' = [nodes EXCEPT ![i].v = v] /\ UNCHANGED hel /\ law' = TRUE
DoFreeze == \E i \in 1..Len(nodes) : nodes' = [k \in 1..Len(nodes) |-> IF UnderN(nodes, k, i) THEN [nodes[k] EXCEPT !.im = TRUE] ELSE nodes[k]] /\ UNCHANGED hel /\ law' = TRUE
DoDetach == hel' = [hel EXCEPT !.att = <<>>] /\ UNCHANGED nodes /\ law' = TRUE
CONSTANT Depth
Next == d < Depth /\ d' = d + 1 /\ (DoAttach \/ DoSet \/ DoPut \/ DoFreeze \/ DoDetach)
Spec == Init /\ [][Next]_vars
Laws == law
Attached == hel.att # <<>> => LET R == Required(hel.kind) IN Len(hel.att) = Len(R) /\ \A j \in 1..Len(R) :
   nodes[hel.att[j]].nm = R[j].n /\ nodes[hel.att[j]].t.k = R[j].t.k /\ nodes[hel.att[j]].t.t = R[j].t.t /\ nodes[hel.att[j]].p = nodes[hel.att[1]].p
=============================================================================
