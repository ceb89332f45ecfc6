------------------------------ MODULE ReqMapMC ------------------------------
EXTENDS ReqMap, TLC
CONSTANTS Levels, QLevels, Keeps
VARIABLES t, q, keep, mask, fm, md, ph
vars == <<t, q, keep, mask, fm, md, ph>>
a == <<97>>  b == <<98>>  z == <<122>>
Leaf == [k |-> "s", t |-> "byte", max |-> 0]
St(id, n, f) == [k |-> "st", id |-> id, n |-> n, f |-> f]
RECURSIVE Ts(_), Qs(_)
Ts(d) == IF d = 0 THEN {Leaf, St(<<120>>, <<>>, <<>>)} ELSE
  {Leaf, St(<<120>>, <<>>, <<>>)} \cup {St(<<d>>, <<a>>, <<x>>) : x \in Ts(d - 1)} \cup {St(<<121>>, <<a, b>>, <<x, y>>) : x \in Ts(d - 1), y \in Ts(0)}
Q(n, f) == [k |-> "st", n |-> n, f |-> f]
Qs(d) == IF d = 0 THEN {Q(<<>>, <<>>), [k |-> "x"]} ELSE LET s == Qs(d - 1) IN
  s \cup {Q(<<x>>, <<y>>) : x \in {a, b, z}, y \in s} \cup {Q(<<b, a>>, <<x, y>>) : x \in s, y \in s}
Init == t \in {x \in Ts(Levels) : x.k = "st"} /\ q = Q(<<>>, <<>>) /\ keep = TRUE /\ mask = TRUE /\ fm = {} /\ md = {} /\ ph = 0
Offs == 0..NF(t) - 1
Next ==
  \/ ph = 0 /\ ph' = 1 /\ UNCHANGED <<t, fm, md>> /\ q' \in {x \in Qs(QLevels) : x.k = "st"} /\ keep' \in Keeps /\ mask' \in BOOLEAN
  \/ ph = 1 /\ SelOk(t, q) /\ ph' = 2 /\ UNCHANGED <<t, q, keep, mask, md>> /\ fm' \in SUBSET Offs
Spec == Init /\ [][Next]_vars
M == Mapper(t, q, keep, mask)
(* numbers with their full names *)
RECURSIVE Names(_, _, _)
Names(x, base, pre) == {<<pre, base>>} \cup (IF x.k # "st" THEN {} ELSE UNION {Names(x.f[i], OffsetOf(x, base, i), Append(pre, x.n[i])) : i \in 1..Len(x.f)})
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x ELSE At(x.f[Index(x.n, p[1])], Tail(p))
(* what is asked for, by paths: a path is selected if the request leads to it or ends above it (or below) *)
RECURSIVE Asked(_, _, _)
Asked(p, x, d) == IF p = <<>> THEN TRUE ELSE IF x.n = <<>> \/ d > MaxDepth THEN TRUE ELSE LET i == Index(x.n, p[1]) IN IF i = 0 THEN FALSE ELSE Asked(Tail(p), x.f[i], d + 1)
SelectsByName == ph = 0 \/ ~SelOk(t, q) \/ (
  /\ M.mask = {n[2] : n \in {y \in Names(t, 0, <<>>) : Asked(y[1], q, 0)}}
  /\ \A r \in Names(M.req, 0, <<>>) : \E n \in Names(t, 0, <<>>) : n[1] = r[1] /\ At(M.req, r[1]).k = At(t, n[1]).k
       /\ (IF n[2] \in M.mask THEN <<r[2], n[2]>> \in M.map ELSE mask)
  /\ (mask => M.req = t)
  /\ (~mask => Cardinality(M.map) = NF(M.req) /\ {p[1] : p \in M.map} = 0..NF(M.req) - 1)
  /\ \A x \in M.map, y \in M.map : (x[1] = y[1]) <=> (x = y))
Refused == ph = 0 \/ (SelOk(t, q) => ~Bad(t, q, 0) /\ Cardinality(M.mask) > 1)
RECURSIVE Numbered(_, _)
Numbered(x, k) == IF x.k # "st" THEN k ELSE [f |-> [i \in 1..Len(x.f) |-> Numbered(x.f[i], k + i * (IF k < 10 THEN 10 ELSE 100))]]
RECURSIVE Build(_, _, _)
Build(x, fl, base) == IF x.k # "st" THEN fl[base + 1].v ELSE [f |-> [i \in 1..Len(x.f) |-> Build(x.f[i], fl, OffsetOf(x, base, i))]]
(* there and back: what was selected and marked survives, nothing else moves *)
RoundTrip == ph # 2 \/ LET S == M  B == Numbered(t, 1)  R == Default(S.req)  Z == Default(t)
                          rm == Marks(S.map, t, fm, {})  r == Copied(S.map, t, B, S.req, R, fm)
                          bm == Marks(Swapped(S.map), S.req, rm, {})  zz == Copied(Swapped(S.map), S.req, Build(S.req, r, 0), t, Z, rm)
                          U == Under(t, fm, 0) \cap S.mask IN
  /\ bm = U
  /\ \A k \in 1..NF(t) : zz[k] = (IF k - 1 \in U THEN Flat(t, B)[k] ELSE Flat(t, Z)[k])
  /\ (U = {}) = (fm \cap S.mask = {} \/ Under(t, fm, 0) \cap S.mask = {})
=============================================================================
