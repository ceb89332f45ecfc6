------------------------------ MODULE DebugPtr ------------------------------
(* Strong and weak pointers over objects, as std::shared_ptr defines them,   *)
(* and the references the tracking pointer must report.                      *)
(*  P.st : strong slot -> ownership group, 0 for null                        *)
(*  P.wk : weak slot -> group, 0 for empty                                   *)
(*  P.ob : group -> object                                                   *)
(*  P.self : object -> group its shared_from_this uses, 0 for none           *)
(*  P.dead : destroyed objects; P.own : objects whose group destroys them    *)
EXTENDS Naturals, Sequences, FiniteSets
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoF == [x \in {} |-> 0]
P0 == [st |-> NoF, wk |-> NoF, ob |-> NoF, self |-> NoF, dead |-> {}, own |-> {}]
Refs(P, g) == IF g = 0 THEN {} ELSE {s \in DOMAIN P.st : P.st[s] = g}
Live(P, g) == Refs(P, g) # {}
Uses(P, g) == Cardinality(Refs(P, g))
Get(P, g) == IF g = 0 THEN 0 ELSE P.ob[g]
(* the last strong pointer of a group takes the object with it *)
Reap(P, g) == IF g # 0 /\ ~Live(P, g) /\ P.ob[g] \in P.own THEN [P EXCEPT !.dead = @ \cup {P.ob[g]}] ELSE P
SGroup(P, s) == IF s \in DOMAIN P.st THEN P.st[s] ELSE 0
SetS(P, s, g) == LET o == SGroup(P, s) Q == [P EXCEPT !.st = Put(@, s, g)] IN IF o = g THEN Q ELSE Reap(Q, o)
DropS(P, s) == Reap([P EXCEPT !.st = Rem(@, s)], SGroup(P, s))
SetW(P, w, g) == [P EXCEPT !.wk = Put(@, w, g)]
DropW(P, w) == [P EXCEPT !.wk = Rem(@, w)]
NewObj(P, o, owned) == [P EXCEPT !.self = Put(@, o, 0), !.own = IF owned THEN @ \cup {o} ELSE @]
(* a new group g over object o, held by slot s *)
NewGroup(P, s, g, o) == SetS([P EXCEPT !.ob = Put(@, g, o), !.self = Put(@, o, g)], s, g)
Lock(P, w) == IF Live(P, P.wk[w]) THEN P.wk[w] ELSE 0
Swap(P, s, t) == [P EXCEPT !.st = [@ EXCEPT ![s] = P.st[t], ![t] = P.st[s]]]
=============================================================================
