----------------------------- MODULE ConvsTrace -----------------------------
(* C19.  v: the elements given, r: those obtained if ok; un: a refused put   *)
(* left the target as it was; idx: the element named by the message, or -1.  *)
EXTENDS Convs, TraceBase
vars == <<l>>
TInit == l = 1
Step(e) ==
  CASE e.op = "Start" -> TRUE
    [] e.op = "cv" ->
         IF e.ok THEN /\ Len(e.r) = Len(e.v)
                      /\ \A i \in 1..Len(e.v) : Acc(e.to, e.from, e.v[i]) # "no" /\ Good(e.to, e.from, e.v[i], e.r[i])
         ELSE /\ e.un
              /\ IF e.idx # -1 THEN e.idx < Len(e.v) /\ Acc(e.to, e.from, e.v[e.idx + 1]) # "ok" /\ \A i \in 1..e.idx : Acc(e.to, e.from, e.v[i]) # "no"
                 ELSE (e.v = <<>> /\ "boolean" \in {e.to, e.from}) \/ \E i \in 1..Len(e.v) : Acc(e.to, e.from, e.v[i]) # "ok"
              /\ (Len(e.v) > 1 /\ e.from = "string") => e.idx # -1
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
