----------------------------- MODULE PVOpsTrace -----------------------------
(* Judges equality, tree structure and changed-set compression.             *)
EXTENDS PVTypes, TraceBase
tvars == <<l>>
(* the sub-trees in offset order: [t, parent, name, full]                   *)
Dot == <<46>>
RECURSIVE Nodes(_, _, _, _, _)
Nodes(t, off, parent, name, full) ==
  <<[t |-> t, off |-> off, parent |-> parent, name |-> name, full |-> full]>>
  \o (IF t.k # "st" THEN <<>> ELSE
      Cat([i \in 1..Len(t.f) |-> Nodes(t.f[i], OffsetOf(t, off, i), off, t.n[i], IF full = <<>> THEN t.n[i] ELSE full \o Dot \o t.n[i])]))
(* dotted lookup below a node, by its path of names; -1 when there is none  *)
RECURSIVE Split(_)
Split(s) == IF \E i \in 1..Len(s) : s[i] = 46
            THEN LET k == CHOOSE i \in 1..Len(s) : s[i] = 46 /\ \A j \in 1..i - 1 : s[j] # 46 IN <<SubSeq(s, 1, k - 1)>> \o Split(Drop(s, k))
            ELSE <<s>>
RECURSIVE Path(_, _, _)
Path(t, off, p) ==
  IF p = <<>> THEN off
  ELSE IF t.k # "st" \/ ~\E i \in 1..Len(t.n) : t.n[i] = p[1] THEN -1
  ELSE LET i == CHOOSE i \in 1..Len(t.n) : t.n[i] = p[1] IN Path(t.f[i], OffsetOf(t, off, i), Tail(p))
Tree(e) == LET N == Nodes(e.t, 0, -1, <<>>, <<>>)  K == Len(N) IN
  /\ e.dflt = Default(e.t) /\ e.same /\ e.typesame
  /\ Len(e.f) = K /\ K = NF(e.t)
  /\ \A i \in 1..K : LET x == e.f[i]  n == N[i] IN
       /\ x.off = i - 1 /\ n.off = i - 1 /\ x.num = NF(n.t) /\ x.next = i - 1 + NF(n.t)
       /\ x.name = n.name /\ x.full = n.full /\ x.parent = n.parent /\ x.t = n.t
       /\ n.t.k = "st" =>
            /\ \A z \in 1..Len(x.byoff) : x.byoff[z] = (IF z # i /\ z - 1 \in Range(i - 1, n.t) THEN z - 1 ELSE -1)
            /\ x.kids = [j \in 1..Len(n.t.f) |-> OffsetOf(n.t, i - 1, j)]
  /\ \A i \in 1..Len(e.look) : LET x == e.look[i]  b == N[x.base + 1]
                                   g == IF x.name = <<>> THEN -1 ELSE Path(b.t, x.base, Split(x.name))
                                   gt == IF g = -1 THEN [k |-> "none"] ELSE N[g + 1].t
                                   If(c) == IF g # -1 /\ c THEN g ELSE -1 IN
       /\ x.ex = "" /\ x.got = g /\ (x.ex2 = "") = (g # -1) /\ x.got2 = g
       /\ x.ex3 = "" /\ x.int = If(gt.k = "s" /\ gt.t = "int") /\ x.st = If(gt.k = "st") /\ x.u = If(gt.k = "u")
       /\ x.str = If(gt.k = "s" /\ gt.t = "string") /\ x.da = If(gt.k = "sa" /\ gt.t = "double") /\ x.sta = If(gt.k = "sta")
       /\ x.sc = If(gt.k = "s") /\ x.sca = If(gt.k = "sa")
       /\ x.xi = (x.int # -1) /\ x.xs = (x.st # -1) /\ x.xsc = (x.sc # -1)
       /\ LET m == {j \in 1..Len(b.t.n) : b.t.n[j] = x.name} IN
          IF m = {} THEN x.field = [k |-> "none"] /\ x.fidx = -1
          ELSE \A j \in m : x.field = b.t.f[j] /\ x.fidx = j - 1
  /\ \A i \in 1..Len(e.offs) : LET x == e.offs[i]  in == x.off < K /\ x.off > 0 IN
       /\ x.ex = "" /\ x.ok = in
       /\ x.str = (IF in /\ N[x.off + 1].t.k = "s" /\ N[x.off + 1].t.t = "string" THEN x.off ELSE -1)
       /\ x.st = (IF in /\ N[x.off + 1].t.k = "st" THEN x.off ELSE -1) /\ x.okst = (x.st # -1)
Judge(e) ==
  CASE e.op = "eq" -> /\ e.ex = ""
         /\ \A i, j \in 1..3 : e.m[i][j] = (IF i = j \/ (e.t[i] = e.t[j] /\ EqV(e.t[i], e.v[i], e.v[j])) THEN 1 ELSE 2)
         /\ e.self = (IF EqV(e.t[1], e.v[1], e.v[1]) THEN 1 ELSE 0)
    [] e.op = "tree" -> Tree(e)
    [] e.op = "compress" -> LET m == SeqToSet(e.m)  c == Compress(e.t, m, 0) IN
         /\ e.ex = "" /\ SeqToSet(e.out) = c /\ e.ret = (c # {}) /\ e.out2 = e.out /\ e.ret2 = e.ret
TInit == l = 1
TNext == LET e == Trace[l] IN
  /\ l <= TLen /\ l' = l + 1
  /\ \/ e.op = "Start"
     \/ e.op \in {"eq", "tree", "compress"} /\ Judge(e)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
