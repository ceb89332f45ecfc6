------------------------------ MODULE BitSets ------------------------------
(* Bit sets (property C01).                                                 *)
(*                                                                          *)
(* Two levels.  Abstractly every named bit set IS a finite set of naturals  *)
(* (SetSem).  The representation the code uses is modelled next to it: a    *)
(* sequence of W-bit words with no trailing empty word (WordSem).  The      *)
(* exhaustive configuration checks that the word level refines the set      *)
(* level for every operation from every reachable state, that the word form *)
(* is canonical, and that every observer computed from words equals the     *)
(* set-theoretic one.  BitSetsTrace binds the set level to the code.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Set level.  m : [Names -> SUBSET Nat];  o : operation record.            *)
SymDiff(A, B) == (A \ B) \cup (B \ A)

SetSem(o, m) ==
  CASE o.op = "set"      -> [m EXCEPT ![o.s] = @ \cup {o.i}]
    [] o.op = "clear"    -> [m EXCEPT ![o.s] = @ \ {o.i}]
    [] o.op = "flip"     -> [m EXCEPT ![o.s] = SymDiff(@, {o.i})]
    [] o.op = "setv"     -> [m EXCEPT ![o.s] = IF o.v THEN @ \cup {o.i} ELSE @ \ {o.i}]
    [] o.op = "clearall" -> [m EXCEPT ![o.s] = {}]
    [] o.op = "and"      -> [m EXCEPT ![o.s] = @ \cap m[o.t]]
    [] o.op = "or"       -> [m EXCEPT ![o.s] = @ \cup m[o.t]]
    [] o.op = "xor"      -> [m EXCEPT ![o.s] = SymDiff(@, m[o.t])]
    [] o.op = "assign"   -> [m EXCEPT ![o.s] = m[o.t]]
    [] o.op = "copy"     -> [m EXCEPT ![o.s] = m[o.t]]
    [] o.op = "swap"     -> [m EXCEPT ![o.s] = m[o.t], ![o.t] = m[o.s]]
    [] o.op = "orand"    -> [m EXCEPT ![o.s] = @ \cup (m[o.t] \cap m[o.u])]
    [] o.op = "init"     -> [m EXCEPT ![o.s] = {o.l[k] : k \in 1..Len(o.l)}]
    [] o.op = "new"      -> [m EXCEPT ![o.s] = {}]

(* Observers at set level *)
NextSet(A, f)   == LET G == {x \in A : x >= f} IN IF G = {} THEN -1 ELSE Min(G)
RECURSIVE NextClear(_, _)
NextClear(A, f) == IF f \in A THEN NextClear(A, f + 1) ELSE f
LogicalSize(A, w) == IF A = {} THEN 0 ELSE w * ((Max(A) \div w) + 1)
RECURSIVE Sorted(_)
Sorted(A) == IF A = {} THEN <<>> ELSE LET x == Min(A) IN <<x>> \o Sorted(A \ {x})
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN ToString(q[1])
           ELSE ToString(q[1]) \o ", " \o Join(Tail(q))
Printed(A) == "{" \o Join(Sorted(A)) \o "}"

-----------------------------------------------------------------------------
(* Word level *)
CONSTANTS W,       \* bits per word
          NBits,   \* indices used: 0 .. NBits-1
          Names
Word == SUBSET (0..W-1)
Abs(ws) == {k * W + b : k \in 0..Len(ws)-1, b \in 0..W-1} \cap
           UNION {{(k-1) * W + b : b \in ws[k]} : k \in 1..Len(ws)}
RECURSIVE Trim(_)
Trim(ws) == IF ws = <<>> THEN <<>> ELSE IF ws[Len(ws)] = {} THEN Trim(SubSeq(ws, 1, Len(ws)-1)) ELSE ws
Grow(ws, n) == [k \in 1..MaxOf(Len(ws), n) |-> IF k <= Len(ws) THEN ws[k] ELSE {}]
Shrink(ws, n) == SubSeq(ws, 1, MinOf(Len(ws), n))
WI(i) == (i \div W) + 1
WO(i) == i % W
WSet(ws, i)   == LET g == Grow(ws, WI(i)) IN [g EXCEPT ![WI(i)] = @ \cup {WO(i)}]
WClear(ws, i) == IF WI(i) <= Len(ws) THEN Trim([ws EXCEPT ![WI(i)] = @ \ {WO(i)}]) ELSE ws
WFlip(ws, i)  == LET g == Grow(ws, WI(i)) IN Trim([g EXCEPT ![WI(i)] = SymDiff(@, {WO(i)})])
WAnd(a, b)    == LET s == Shrink(a, Len(b)) IN Trim([k \in 1..Len(s) |-> s[k] \cap b[k]])
WOr(a, b)     == LET g == Grow(a, Len(b)) IN [k \in 1..Len(g) |-> IF k <= Len(b) THEN g[k] \cup b[k] ELSE g[k]]
WXor(a, b)    == LET g == Grow(a, Len(b)) IN Trim([k \in 1..Len(g) |-> IF k <= Len(b) THEN SymDiff(g[k], b[k]) ELSE g[k]])
WOrAnd(a, b, c) == LET n == MinOf(Len(b), Len(c))  g == Grow(a, n)
                   IN Trim([k \in 1..Len(g) |-> IF k <= n THEN g[k] \cup (b[k] \cap c[k]) ELSE g[k]])
WordSem(o, w) ==
  CASE o.op = "set"      -> [w EXCEPT ![o.s] = WSet(@, o.i)]
    [] o.op = "clear"    -> [w EXCEPT ![o.s] = WClear(@, o.i)]
    [] o.op = "flip"     -> [w EXCEPT ![o.s] = WFlip(@, o.i)]
    [] o.op = "clearall" -> [w EXCEPT ![o.s] = <<>>]
    [] o.op = "and"      -> [w EXCEPT ![o.s] = IF o.s = o.t THEN @ ELSE WAnd(@, w[o.t])]
    [] o.op = "or"       -> [w EXCEPT ![o.s] = IF o.s = o.t THEN @ ELSE WOr(@, w[o.t])]
    [] o.op = "xor"      -> [w EXCEPT ![o.s] = WXor(@, w[o.t])]
    [] o.op = "assign"   -> [w EXCEPT ![o.s] = w[o.t]]
    [] o.op = "swap"     -> [w EXCEPT ![o.s] = w[o.t], ![o.t] = w[o.s]]
    [] o.op = "orand"    -> [w EXCEPT ![o.s] = WOrAnd(@, w[o.t], w[o.u])]

WNextSet(ws, f) ==
  LET C == {k \in WI(f)..Len(ws) : (IF k = WI(f) THEN {b \in ws[k] : b >= WO(f)} ELSE ws[k]) # {}}
  IN IF WI(f) > Len(ws) \/ C = {} THEN -1
     ELSE LET k == Min(C) IN (k-1)*W + Min(IF k = WI(f) THEN {b \in ws[k] : b >= WO(f)} ELSE ws[k])
WNextClear(ws, f) ==
  LET Cl(k) == (IF k = WI(f) THEN {b \in 0..W-1 : b >= WO(f)} ELSE 0..W-1) \ ws[k]
      C == {k \in WI(f)..Len(ws) : Cl(k) # {}}
  IN IF WI(f) > Len(ws) THEN f
     ELSE IF C = {} THEN Len(ws) * W ELSE LET k == Min(C) IN (k-1)*W + Min(Cl(k))

-----------------------------------------------------------------------------
(* Exhaustive model *)
VARIABLES words, hist
vars == <<words, hist>>
Idx == 0..NBits-1
Ops == [op : {"set", "clear", "flip"}, s : Names, i : Idx]
       \cup [op : {"clearall"}, s : Names]
       \cup [op : {"and", "or", "xor", "assign", "swap"}, s : Names, t : Names]
       \cup [op : {"orand"}, s : Names, t : Names, u : Names]
Init == words = [n \in Names |-> <<>>] /\ hist = <<>>
Do(o) == words' = WordSem(o, words) /\ hist' = Append(hist, o)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == words

AbsAll(w) == [n \in Names |-> Abs(w[n])]
Canonical == \A n \in Names : words[n] = Trim(words[n])
(* equal sets have identical words, hence compare equal however reached *)
EqualIsSame == \A a, b \in Names : (words[a] = words[b]) <=> (Abs(words[a]) = Abs(words[b]))
ObserversAgree == \A n \in Names : LET A == Abs(words[n]) IN
     /\ \A f \in 0..NBits+W : WNextSet(words[n], f) = NextSet(A, f) /\ WNextClear(words[n], f) = NextClear(A, f)
     /\ Len(words[n]) * W = LogicalSize(A, W)
     /\ (words[n] = <<>>) <=> (A = {})
Refines == [][AbsAll(words') = SetSem(hist'[Len(hist')], AbsAll(words))]_vars
=============================================================================
