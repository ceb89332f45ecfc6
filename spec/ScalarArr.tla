----------------------------- MODULE ScalarArr ------------------------------
(* Scalar arrays: A = [b ("v" any, "b" bounded, "f" fixed), n bound, v elements, *)
(* cap, im immutable, cm capacity may change].  Every operation gives       *)
(* [a, ok, r]: the array after it, whether it was accepted, its result.     *)
EXTENDS Naturals, Integers, Sequences
Arr(b, n, v, cap) == [b |-> b, n |-> n, v |-> v, cap |-> cap, im |-> FALSE, cm |-> TRUE]
Acc(a) == [a |-> a, ok |-> TRUE, r |-> <<>>]
Ref(a) == [a |-> a, ok |-> FALSE, r |-> <<>>]
LenOk(a, k) == CASE a.b = "b" -> k <= a.n [] a.b = "f" -> k = a.n [] OTHER -> TRUE
(* which capacity an array takes is open, within CapOk *)
CapOk(a) == a.cap >= Len(a.v)
(* tail: the elements added; the interface leaves them open *)
SetLength(a, k, tail, cap) ==
  IF a.im THEN Ref(a) ELSE IF k = Len(a.v) THEN Acc(a) ELSE IF ~LenOk(a, k) THEN Ref(a)
  ELSE Acc([a EXCEPT !.v = IF k < Len(a.v) THEN SubSeq(a.v, 1, k) ELSE a.v \o tail, !.cap = cap])
SetCapacity(a, k, cap) == IF a.im \/ ~a.cm \/ ~LenOk(a, k) THEN Ref(a) ELSE Acc([a EXCEPT !.cap = cap])
SetCapMutable(a, m) == IF a.im /\ m THEN Ref(a) ELSE Acc([a EXCEPT !.cm = m])
SetImmutable(a) == Acc([a EXCEPT !.im = TRUE, !.cm = FALSE])
Replace(a, v, cap) == IF ~LenOk(a, Len(v)) THEN Ref(a) ELSE Acc([a EXCEPT !.v = v, !.cap = cap])
(* the primitive exchange leaves the length to its caller *)
Swap(a, v, cap) == IF a.im THEN Ref(a) ELSE [a |-> [a EXCEPT !.v = v, !.cap = cap], ok |-> TRUE, r |-> a.v]
CopyFrom(a, v, cap) == IF a.im THEN Ref(a) ELSE Replace(a, v, cap)
CapMutable(a) == ~a.im /\ a.cm
=============================================================================
