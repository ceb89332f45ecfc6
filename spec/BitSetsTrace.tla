---------------------------- MODULE BitSetsTrace ----------------------------
(* Accepts exactly the recorded histories of real BitSets the set level     *)
(* explains: every operation is applied to m, and every logged observation  *)
(* must equal the one computed from m.                                      *)
EXTENDS BitSets, TraceBase
VARIABLE m
tvars == <<l, m, words, hist>>
TNames == 1..3
ToSet(q) == {q[k] : k \in 1..Len(q)}
Increasing(q) == \A k \in 1..Len(q)-1 : q[k] < q[k+1]
ObsOk(r, A) ==
  /\ ToSet(r.get) = A /\ Increasing(r.get)
  /\ r.scan = Sorted(A)
  /\ r.card = Cardinality(A)
  /\ r.empty = (A = {})
  /\ r.size = LogicalSize(A, 64)
  /\ \A k \in 1..Len(r.nxt) : r.nxt[k][2] = NextSet(A, r.nxt[k][1])
  /\ \A k \in 1..Len(r.clr) : r.clr[k][2] = NextClear(A, r.clr[k][1])
  /\ r.txt = Printed(A)
RelOk(r, M) ==
  \A a \in TNames, b \in TNames :
    /\ r.eq[a][b] = (M[a] = M[b])
    /\ r.ne[a][b] = (M[a] # M[b])
    /\ r.land[a][b] = (M[a] \cap M[b] # {})
    /\ r.lor[a][b] = (M[a] \cup M[b] # {})
TInit == l = 1 /\ m = [n \in TNames |-> {}] /\ words = 0 /\ hist = 0
TNext == LET e == Trace[l] IN
  /\ l <= TLen /\ l' = l + 1 /\ UNCHANGED <<words, hist>>
  /\ IF e.op = "Start" THEN m' = [n \in TNames |-> {}]
     ELSE /\ e.op \in {"set","clear","flip","setv","clearall","and","or","xor","assign","copy","swap","orand","init","new"}
          /\ m' = SetSem(e, m)
          /\ Has(e, "obs") => (\A n \in TNames : ObsOk(e.obs[n], m'[n]))
          /\ Has(e, "rel") => RelOk(e.rel, m')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
