------------------------------ MODULE FieldsMC -------------------------------
(* All short sequences of builder calls: whatever is built is well-formed    *)
(* and holds the fields added, in order, and refusals change nothing.        *)
EXTENDS Fields, TLC
CONSTANTS MaxB, MaxF, Names
VARIABLES bs, last
vars == <<bs, last>>
NameOf == [x \in {"a", "b", "bad", "empty"} |-> CASE x = "a" -> <<97>> [] x = "b" -> <<98>> [] x = "bad" -> <<48>> [] OTHER -> <<>>]
IntF == MkS("int")
DblF == MkS("double")
Init == bs = <<Frame(0, "st", <<>>, FALSE, TRUE)>> /\ last = [ok |-> TRUE, t |-> None, add |-> <<>>]
Do(R, add) == bs' = R.bs /\ last' = [ok |-> R.ok, t |-> R.t, add |-> add]
Small == \A b \in 1..Len(bs) : Len(bs[b].n) <= MaxF
Next == \E b \in 1..Len(bs) :
  \/ \E x \in Names, R \in {IntF, DblF, No} : Do(BAdd(bs, b, NameOf[x], R), <<>>)
  \/ \E x \in Names, k \in {"st", "u"}, a \in BOOLEAN : Len(bs) < MaxB /\ Do(BNest(bs, b, NameOf[x], k, a), <<>>)
  \/ Do(BEnd(bs, b), <<>>)
  \/ \E k \in {"st", "u"} : Do(BMake(bs, b, k), IF bs[b].par = 0 THEN <<bs[b].n, bs[b].f>> ELSE <<>>)
  \/ \E id \in {<<>>, <<120>>} : Do(BSetId(bs, b, id), <<>>)
Spec == Init /\ [][Next]_vars
Built == last.t # None => WfT(last.t) /\ <<last.t.n, last.t.f>> = last.add
Refused == [][~last'.ok => bs' = bs]_vars
=============================================================================
