----------------------------- MODULE TimeStamps ------------------------------
(* Time stamps: a time stamp denotes the number of nanoseconds T (an exact   *)
(* integer) since the epoch.  Its parts are the floor quotient and remainder.*)
EXTENDS Big
G == ZOf(1000000000)
NanoOf(sec, ns) == ZAdd(ZMul(sec, G), ns)          \* what (sec, ns) denotes
Normal(ns) == 0 <= ns /\ ns < 1000000000
(* seconds given as a double x: whole nanoseconds within one of the exact product *)
AddedOk(from, to, x) ==
  LET k == IF x.e < 0 THEN -x.e ELSE 0
      exact == ZMul(ZShl(Z(x.s, x.m), IF x.e > 0 THEN x.e ELSE 0), G)    \* times 2^k
      diff == ZSub(ZShl(ZSub(to, from), k), exact) IN
  ZLe(ZAbs(diff), ZPow2(k))
(* y (a double) is t/10^9 to within 2^-50 of |t/10^9| + 2 (it is computed from the seconds and nanoseconds) *)
SecondsOk(y, t) ==
  LET k == IF y.e < 0 THEN -y.e ELSE 0
      l == ZMul(ZShl(Z(y.s, y.m), IF y.e > 0 THEN y.e ELSE 0), G)        \* y * 2^k * 10^9
      r == ZShl(t, k) IN
  ZLe(ZShl(ZAbs(ZSub(l, r)), 50), ZAdd(ZAbs(r), ZShl(ZOf(2000000000), k)))
=============================================================================
