----------------------------- MODULE AnysTrace ------------------------------
(* C30.  e.as: every holder after the operation; e.exc: bad_cast / other     *)
EXTENDS Convs, TraceBase
A == INSTANCE Anys
VARIABLE S
vars == <<l, S>>
TInit == l = 1 /\ S = <<>>
Same(a, b) == a.t = b.t /\ (IF a.t = "nil" THEN TRUE ELSE a.v = b.v)
Now(e, T) == Len(e.as) = Len(T) /\ (\A i \in 1..Len(T) : Same(T[i], e.as[i]) /\ e.as[i].bool = (T[i].t # "nil")) /\ S' = T
Step(e) ==
  CASE e.op = "Start" -> S' = [i \in 1..e.n |-> A!Nil]
    [] e.op = "put" -> Now(e, A!Put(S, e.d, A!Val(e.t, e.v)))
    [] e.op = "copy" -> Now(e, A!Copy(S, e.d, e.s))
    [] e.op = "move" -> e.d # e.s /\ Now(e, A!Move(S, e.d, e.s))
    [] e.op = "swap" -> Now(e, A!Swap2(S, e.d, e.s))
    [] e.op = "clear" -> Now(e, A!Clear(S, e.d))
    [] e.op = "refset" -> e.exc = (IF A!RefOk(S, e.d, e.t) THEN "" ELSE "bad_cast") /\ Now(e, A!RefSet(S, e.d, e.t, e.v))
    [] e.op = "ref" -> e.exc = (IF A!RefOk(S, e.d, e.t) THEN "" ELSE "bad_cast") /\ (e.exc = "" => e.r = S[e.d].v) /\ Now(e, S)
    [] e.op = "as" -> /\ Now(e, S)
                      /\ IF S[e.d].t = "nil" THEN e.exc = "bad_cast"
                         ELSE IF e.exc = "" THEN Acc(e.t, S[e.d].t, S[e.d].v) # "no" /\ Good(e.t, S[e.d].t, S[e.d].v, e.r)
                         ELSE e.exc = "other" /\ Acc(e.t, S[e.d].t, S[e.d].v) # "ok"
    [] e.op = "print" -> Now(e, S) /\ (IF S[e.d].t = "nil" THEN e.r = <<40, 110, 105, 108, 41>>
                                       ELSE S[e.d].t \in {"byte", "ubyte", "boolean"} \/ Good("string", S[e.d].t, S[e.d].v, e.r))
    [] e.op = "gone" -> e.leak = 0 /\ S' = <<>>
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
