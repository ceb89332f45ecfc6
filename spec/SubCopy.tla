------------------------------ MODULE SubCopy -------------------------------
(* Copy of a strided sub-array                                               *)
EXTENDS Naturals, Sequences
MaxCount(len, off, stride) == IF off >= len THEN 0 ELSE (len - off - 1) \div stride + 1
Needed(len, off, stride, n) == IF n = 0 \/ off + (n - 1) * stride + 1 <= len THEN len ELSE off + (n - 1) * stride + 1
(* z: what new elements are filled with *)
Sub(to, from, fo, fs, off, ts, n, z) ==
  [i \in 1..Needed(Len(to), off, ts, n) |->
     IF i > off /\ (i - 1 - off) % ts = 0 /\ (i - 1 - off) \div ts < n THEN from[fo + ((i - 1 - off) \div ts) * fs + 1]
     ELSE IF i <= Len(to) THEN to[i] ELSE z]
=============================================================================
