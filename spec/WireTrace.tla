----------------------------- MODULE WireTrace ------------------------------
(* Judges recorded encodings/decodings (C02, C04) and status histories (C09).*)
EXTENDS Wire, TraceBase
VARIABLE st
tvars == <<l, st>>
Increasing(q) == \A k \in 1..Len(q)-1 : q[k] < q[k+1]
Okst == [t |-> 0, m |-> <<>>, k |-> <<>>]
ASCII == [i \in {} |-> 0]
TypeNames == << <<79,75>>, <<87,65,82,78,73,78,71>>, <<69,82,82,79,82>>, <<70,65,84,65,76>> >>  \* OK WARNING ERROR FATAL
Dump(s) == <<83,116,97,116,117,115,32,91,116,121,112,101,61>> \o TypeNames[s.t + 1]
  \o (IF s.m = <<>> THEN <<>> ELSE <<44,32,109,101,115,115,97,103,101,61>> \o s.m)
  \o (IF s.k = <<>> THEN <<>> ELSE <<44,32,115,116,97,99,107,68,117,109,112,61,10>> \o s.k) \o <<93>>
StOk(o, s) == /\ o.t = s.t /\ o.m = s.m /\ o.k = s.k
              /\ o.ok = (s.t = 0) /\ o.succ = (s.t \in {0, 1}) /\ o.b = o.succ
              /\ o.dump = Dump(s)
StNext(e, S) ==
  CASE e.op = "make" -> IF e.t = 0 THEN S ELSE [S EXCEPT ![e.s] = [t |-> e.t, m |-> e.m, k |-> e.k]]
    [] e.op = "reset" -> [S EXCEPT ![e.s] = Okst]
    [] e.op = "assign" -> [S EXCEPT ![e.s] = S[e.u]]
    [] e.op = "max" -> IF S[e.s].t < S[e.u].t THEN [S EXCEPT ![e.s] = S[e.u]] ELSE S
    [] e.op = "wire" -> [S EXCEPT ![e.s] = S[e.u]]
Pure(e) ==
  CASE e.op = "bits" -> LET A == SeqToSet(e.set)  B == BitsEnc(A, e.bo) IN
         /\ e.ex = "" /\ e.bytes = B /\ e.used = Len(B) /\ e.eq
         /\ Increasing(e.set) /\ e.got = e.set /\ e.after = e.set
    [] e.op = "bitsdec" -> LET d == BitsDec(e.in, e.bo) IN
         /\ d.ok /\ e.ex = "" /\ Increasing(e.got) /\ SeqToSet(e.got) = d.set /\ e.used = d.used /\ e.eq
    [] e.op = "size" -> LET B == SizeEnc(e.n, e.bo) IN e.ex = "" /\ e.bytes = B /\ e.got = e.n /\ e.used = Len(B)
    [] e.op = "sizedec" -> LET d == SizeDec(e.in, e.bo) IN IF d.ok THEN ~e.ex /\ e.got = d.n /\ e.used = d.used ELSE e.ex
    [] e.op = "str" -> LET B == StrEnc(e.s, e.bo) IN e.ex = "" /\ e.bytes = B /\ e.got = e.s /\ e.used = Len(B)
    [] e.op = "sub" -> LET p == Slice(e.s, e.off, e.cnt)  B == StrEnc(p, e.bo) IN e.ex = "" /\ e.bytes = B /\ e.got = p /\ e.used = Len(B)
    [] e.op = "strdec" -> LET d == StrDec(e.in, e.bo) IN IF d.ok THEN ~e.ex /\ e.got = d.b /\ e.used = d.used ELSE e.ex
TInit == l = 1 /\ st = <<Okst, Okst, Okst>>
TNext == LET e == Trace[l] IN
  /\ l <= TLen /\ l' = l + 1
  /\ IF e.op = "Start" THEN st' = <<Okst, Okst, Okst>>
     ELSE IF e.op \in {"make", "reset", "assign", "max", "wire"} THEN
          /\ st' = StNext(e, st)
          /\ e.op = "make" => e.ex = (e.t = 0)
          /\ e.op = "wire" => LET s == st[e.u]  B == StatusEnc(s.t, s.m, s.k, e.bo) IN e.ex = "" /\ e.bytes = B /\ e.used = Len(B)
          /\ \A n \in 1..3 : StOk(e.obs[n], st'[n])
     ELSE /\ e.op \in {"bits", "bitsdec", "size", "sizedec", "str", "sub", "strdec"} /\ Pure(e) /\ UNCHANGED st
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
