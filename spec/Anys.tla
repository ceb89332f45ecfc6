-------------------------------- MODULE Anys --------------------------------
(* The any-scalar: a sequence of holders, each empty or one typed value.     *)
EXTENDS Naturals, Sequences
Nil == [t |-> "nil", v |-> <<>>]
Val(t, v) == [t |-> t, v |-> v]
Empty1(h) == h.t = "nil"
Put(S, d, x) == [S EXCEPT ![d] = x]
Copy(S, d, s) == Put(S, d, S[s])
Move(S, d, s) == [S EXCEPT ![d] = S[s], ![s] = Nil]          \* d # s
Swap2(S, d, s) == [S EXCEPT ![d] = S[s], ![s] = S[d]]
Clear(S, d) == Put(S, d, Nil)
(* a reference is given for the stored type only *)
RefOk(S, d, t) == S[d].t = t
RefSet(S, d, t, v) == IF RefOk(S, d, t) THEN Put(S, d, Val(t, v)) ELSE S
=============================================================================
