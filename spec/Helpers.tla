------------------------------- MODULE Helpers -------------------------------
(* Property helpers: objects that remember some fields of a structure and    *)
(* read and write them together.  nodes: sequence of [p parent or 0, nm name,*)
(* t type, v value (0 for structures), im immutable]; a helper is [kind, att]*)
(* with att the fields it is attached to, <<>> if none.                      *)
EXTENDS PVTypes, TimeStamps
Sc(t) == [k |-> "s", t |-> t]
Arr(t) == [k |-> "sa", t |-> t]
(* the fields required; names as byte strings *)
nSeverity == <<115,101,118,101,114,105,116,121>>
nStatus == <<115,116,97,116,117,115>>
nMessage == <<109,101,115,115,97,103,101>>
nSeconds == <<115,101,99,111,110,100,115,80,97,115,116,69,112,111,99,104>>
nNano == <<110,97,110,111,115,101,99,111,110,100,115>>
nTag == <<117,115,101,114,84,97,103>>
nLow == <<108,105,109,105,116,76,111,119>>
nHigh == <<108,105,109,105,116,72,105,103,104>>
nStep == <<109,105,110,83,116,101,112>>
nDesc == <<100,101,115,99,114,105,112,116,105,111,110>>
nFormat == <<102,111,114,109,97,116>>
nUnits == <<117,110,105,116,115>>
nIndex == <<105,110,100,101,120>>
nChoices == <<99,104,111,105,99,101,115>>
Required(kind) ==
  CASE kind = "alarm" -> <<[n |-> nSeverity, t |-> Sc("int")], [n |-> nStatus, t |-> Sc("int")], [n |-> nMessage, t |-> Sc("string")]>>
    [] kind = "time" -> <<[n |-> nSeconds, t |-> Sc("long")], [n |-> nNano, t |-> Sc("int")], [n |-> nTag, t |-> Sc("int")]>>
    [] kind = "control" -> <<[n |-> nLow, t |-> Sc("double")], [n |-> nHigh, t |-> Sc("double")], [n |-> nStep, t |-> Sc("double")]>>
    [] kind = "display" -> <<[n |-> nDesc, t |-> Sc("string")], [n |-> nFormat, t |-> Sc("string")], [n |-> nUnits, t |-> Sc("string")],
                             [n |-> nLow, t |-> Sc("double")], [n |-> nHigh, t |-> Sc("double")]>>
    [] kind = "enum" -> <<[n |-> nIndex, t |-> Sc("int")], [n |-> nChoices, t |-> Arr("string")]>>
Kinds == {"alarm", "time", "control", "display", "enum"}
Child(nodes, s, r) == {i \in 1..Len(nodes) : nodes[i].p = s /\ nodes[i].nm = r.n /\ nodes[i].t.k = r.t.k /\ nodes[i].t.t = r.t.t}
Suits(nodes, s, kind) == nodes[s].t.k = "st" /\ \A j \in 1..Len(Required(kind)) : Child(nodes, s, Required(kind)[j]) # {}
FieldsOf(nodes, s, kind) == [j \in 1..Len(Required(kind)) |-> CHOOSE i \in Child(nodes, s, Required(kind)[j]) : TRUE]
(* a time stamp helper also searches the enclosing structures *)
RECURSIVE Attach(_, _, _)
Attach(nodes, s, kind) ==
  IF s = 0 \/ nodes[s].t.k # "st" THEN <<>>
  ELSE IF Suits(nodes, s, kind) THEN FieldsOf(nodes, s, kind)
  ELSE IF kind = "time" THEN Attach(nodes, nodes[s].p, kind) ELSE <<>>
Values(nodes, att) == [j \in 1..Len(att) |-> nodes[att[j]].v]
Locked(nodes, att) == \E j \in 1..Len(att) : nodes[att[j]].im
Differs(nodes, att, vs) == {j \in 1..Len(att) : ~EqV(nodes[att[j]].t, nodes[att[j]].v, vs[j])}
Written(nodes, att, vs) == LET D == Differs(nodes, att, vs) IN
  [i \in 1..Len(nodes) |-> IF \E j \in D : att[j] = i THEN [nodes[i] EXCEPT !.v = vs[CHOOSE j \in D : att[j] = i]] ELSE nodes[i]]
Code4(b) == SVal(b)
AlarmOk(vs) == ZLe(ZZero, Code4(vs[1])) /\ ZLe(Code4(vs[1]), ZOf(4)) /\ ZLe(ZZero, Code4(vs[2])) /\ ZLe(Code4(vs[2]), ZOf(7))
RECURSIVE UnderN(_, _, _)
UnderN(nodes, i, s) == i = s \/ (nodes[i].p # 0 /\ UnderN(nodes, nodes[i].p, s))
=============================================================================
