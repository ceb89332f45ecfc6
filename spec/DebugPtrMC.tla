----------------------------- MODULE DebugPtrMC -----------------------------
(* The tracking algorithm of debugPtr.cpp: every strong pointer carries its  *)
(* tracker, the tracker the set of addresses registered with it.  TLC checks *)
(* that the registered set is exactly the set of strong pointers, whatever   *)
(* the order of operations.                                                  *)
EXTENDS DebugPtr, TLC
CONSTANTS S, W, G
VARIABLES P, track, wtrack, refs, nxt
vars == <<P, track, wtrack, refs, nxt>>
Init == /\ P = [P0 EXCEPT !.st = [s \in S |-> 0], !.wk = [w \in W |-> 0]]
        /\ track = [s \in S |-> 0] /\ wtrack = [w \in W |-> 0] /\ refs = [g \in G |-> {}] /\ nxt = 1
Clear(r, s) == IF track[s] = 0 THEN r ELSE [r EXCEPT ![track[s]] = @ \ {s}]
Join(r, g, s) == IF g = 0 THEN r ELSE [r EXCEPT ![g] = @ \cup {s}]
(* track_new(ptr) *)
New(s) == /\ nxt \in G /\ P' = NewGroup(NewObj(P, nxt, TRUE), s, nxt, nxt) /\ refs' = Join(Clear(refs, s), nxt, s)
          /\ track' = [track EXCEPT ![s] = nxt] /\ nxt' = nxt + 1 /\ UNCHANGED wtrack
Reset(s) == P' = SetS(P, s, 0) /\ refs' = Clear(refs, s) /\ track' = [track EXCEPT ![s] = 0] /\ UNCHANGED <<wtrack, nxt>>
(* track_assign *)
Assign(s, t) == /\ s # t /\ P' = SetS(P, s, P.st[t])
                /\ IF track[s] # track[t] THEN refs' = Join(Clear(refs, s), track[t], s) /\ track' = [track EXCEPT ![s] = track[t]] ELSE UNCHANGED <<refs, track>>
                /\ UNCHANGED <<wtrack, nxt>>
(* shared_ptr_base::swap: nothing to do for two references to one object *)
SwapP(s, t) == /\ s # t /\ P' = Swap(P, s, t)
               /\ IF track[s] = track[t] THEN UNCHANGED <<refs, track>>
                  ELSE LET r1 == IF track[s] = 0 THEN refs ELSE [refs EXCEPT ![track[s]] = (@ \cup {t}) \ {s}]
                       IN refs' = (IF track[t] = 0 THEN r1 ELSE [r1 EXCEPT ![track[t]] = (@ \cup {s}) \ {t}])
                          /\ track' = [track EXCEPT ![s] = track[t], ![t] = track[s]]
               /\ UNCHANGED <<wtrack, nxt>>
Weak(w, s) == P' = SetW(P, w, P.st[s]) /\ wtrack' = [wtrack EXCEPT ![w] = track[s]] /\ UNCHANGED <<track, refs, nxt>>
(* an expired weak pointer gives a null pointer, which is not registered *)
LockW(s, w) == LET g == Lock(P, w) IN
               /\ P' = SetS(P, s, g) /\ refs' = Join(Clear(refs, s), g, s) /\ track' = [track EXCEPT ![s] = g] /\ UNCHANGED <<wtrack, nxt>>
(* a failed dynamic cast gives a null pointer *)
Cast(s, t, ok) == LET g == IF ok THEN P.st[t] ELSE 0 IN
               /\ s # t /\ P' = SetS(P, s, g) /\ refs' = Join(Clear(refs, s), g, s) /\ track' = [track EXCEPT ![s] = g] /\ UNCHANGED <<wtrack, nxt>>
Next == \/ \E s \in S : New(s) \/ Reset(s)
        \/ \E s, t \in S : Assign(s, t) \/ SwapP(s, t) \/ Cast(s, t, TRUE) \/ Cast(s, t, FALSE)
        \/ \E s \in S, w \in W : Weak(w, s) \/ LockW(s, w)
Spec == Init /\ [][Next]_vars
Exact == \A g \in G : refs[g] = Refs(P, g)
Tracks == \A s \in S : track[s] = P.st[s]
DeadExact == \A g \in DOMAIN P.ob : (P.ob[g] \in P.dead) <=> ~Live(P, g)
=============================================================================
