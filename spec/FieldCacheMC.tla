---------------------------- MODULE FieldCacheMC ----------------------------
(* The shared cache of types (FieldCreate::Helper::cache, Field::cacheCleanup): *)
(* raw pointers in a table under a lock; an object leaves the table from its *)
(* destructor, after its last reference has gone, so the table can show      *)
(* objects that are on their way out.  Leaves are told apart by content,     *)
(* compound types by the identity of their member.                           *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Thr, Leaf, Ids
VARIABLES obj, cache, pc, arg, tmp, own
vars == <<obj, cache, pc, arg, tmp, own>>
(* obj: id -> [c content, m member or 0, rc references, st "temp" "live" "dying" "free"] *)
Free == [c |-> "", m |-> 0, rc |-> 0, st |-> "free"]
Init == /\ obj = [i \in Ids |-> Free] /\ cache = {} /\ pc = [t \in Thr |-> "idle"] /\ arg = [t \in Thr |-> 0] /\ tmp = [t \in Thr |-> 0] /\ own = [t \in Thr |-> {}]
FreeId == CHOOSE i \in Ids : obj[i].st = "free" /\ \A j \in Ids : obj[j].st = "free" => i <= j
HasFree == \E i \in Ids : obj[i].st = "free"
RECURSIVE Struct(_)
Struct(i) == IF obj[i].m = 0 THEN <<obj[i].c>> ELSE <<"p">> \o Struct(obj[i].m)
(* a new object, not in the table yet; a compound one keeps its member *)
Start(t) == /\ pc[t] = "idle" /\ HasFree /\ Cardinality(own[t]) < 2
            /\ \/ \E c \in Leaf : obj' = [obj EXCEPT ![FreeId] = [c |-> c, m |-> 0, rc |-> 1, st |-> "temp"]]
               \/ \E m \in own[t] : obj[m].m = 0 /\ obj' = [obj EXCEPT ![FreeId] = [c |-> "p", m |-> m, rc |-> 1, st |-> "temp"], ![m] = [@ EXCEPT !.rc = @ + 1]]
            /\ tmp' = [tmp EXCEPT ![t] = FreeId] /\ pc' = [pc EXCEPT ![t] = "cache"] /\ UNCHANGED <<cache, arg, own>>
Like(i, j) == obj[i].c = obj[j].c /\ obj[i].m = obj[j].m
(* under the lock: an equal object which can still be referenced, or insert *)
Cache(t) == /\ pc[t] = "cache"
            /\ LET x == tmp[t]  cand == {i \in cache : Like(i, x) /\ obj[i].rc > 0} IN
               IF cand # {} THEN \E i \in cand :
                    LET o1 == IF i \in own[t] THEN obj ELSE [obj EXCEPT ![i] = [@ EXCEPT !.rc = @ + 1]]
                        o2 == IF obj[x].m = 0 THEN o1 ELSE [o1 EXCEPT ![obj[x].m] = [@ EXCEPT !.rc = @ - 1]]
                    IN obj' = [o2 EXCEPT ![x] = Free] /\ own' = [own EXCEPT ![t] = @ \cup {i}] /\ UNCHANGED cache
               ELSE obj' = [obj EXCEPT ![x] = [@ EXCEPT !.st = "live"]] /\ cache' = cache \cup {x} /\ own' = [own EXCEPT ![t] = @ \cup {x}]
            /\ tmp' = [tmp EXCEPT ![t] = 0] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED arg
(* drop a reference; the last one starts the destructor *)
Release(t) == /\ pc[t] = "idle" /\ \E i \in own[t] :
               /\ own' = [own EXCEPT ![t] = @ \ {i}]
               /\ IF obj[i].rc = 1 THEN obj' = [obj EXCEPT ![i] = [@ EXCEPT !.rc = 0, !.st = "dying"]] /\ pc' = [pc EXCEPT ![t] = "clean"] /\ arg' = [arg EXCEPT ![t] = i]
                  ELSE obj' = [obj EXCEPT ![i] = [@ EXCEPT !.rc = @ - 1]] /\ UNCHANGED <<pc, arg>>
            /\ UNCHANGED <<cache, tmp>>
(* the destructor, under the lock; the member goes next *)
Clean(t) == /\ pc[t] = "clean" /\ cache' = cache \ {arg[t]}
            /\ LET i == arg[t]  m == obj[i].m IN
               IF m = 0 THEN obj' = [obj EXCEPT ![i] = Free] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ arg' = [arg EXCEPT ![t] = 0]
               ELSE IF obj[m].rc = 1 THEN obj' = [obj EXCEPT ![i] = Free, ![m] = [@ EXCEPT !.rc = 0, !.st = "dying"]] /\ arg' = [arg EXCEPT ![t] = m] /\ UNCHANGED pc
               ELSE obj' = [obj EXCEPT ![i] = Free, ![m] = [@ EXCEPT !.rc = @ - 1]] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ arg' = [arg EXCEPT ![t] = 0]
            /\ UNCHANGED <<tmp, own>>
Next == \E t \in Thr : Start(t) \/ Cache(t) \/ Release(t) \/ Clean(t)
Spec == Init /\ [][Next]_vars
Live(i) == obj[i].st = "live"
OneEach == \A i, j \in Ids : Live(i) /\ Live(j) /\ Struct(i) = Struct(j) => i = j
Held == \A t \in Thr : \A i \in own[t] : Live(i) /\ obj[i].rc > 0
Table == \A i \in cache : obj[i].st \in {"live", "dying"}
LiveListed == \A i \in Ids : Live(i) => i \in cache
=============================================================================
