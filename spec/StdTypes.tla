------------------------------ MODULE StdTypes ------------------------------
(* Standard structures (C37): a value and its properties.  Strings are byte  *)
(* sequences; the text of each is given beside it.                           *)
EXTENDS PVTypes, FiniteSets
Sc(t) == [k |-> "s", t |-> t, max |-> 0]
Sa(t) == [k |-> "sa", t |-> t, b |-> "v", n |-> 0]
\* alarm_t severity status message
Alarm == [k |-> "st", id |-> <<97, 108, 97, 114, 109, 95, 116>>, n |-> <<<<115, 101, 118, 101, 114, 105, 116, 121>>, <<115, 116, 97, 116, 117, 115>>, <<109, 101, 115, 115, 97, 103, 101>>>>, f |-> <<Sc("int"), Sc("int"), Sc("string")>>]
\* time_t secondsPastEpoch nanoseconds userTag
TimeStamp == [k |-> "st", id |-> <<116, 105, 109, 101, 95, 116>>, n |-> <<<<115, 101, 99, 111, 110, 100, 115, 80, 97, 115, 116, 69, 112, 111, 99, 104>>, <<110, 97, 110, 111, 115, 101, 99, 111, 110, 100, 115>>, <<117, 115, 101, 114, 84, 97, 103>>>>, f |-> <<Sc("long"), Sc("int"), Sc("int")>>]
\* display_t limitLow limitHigh description format units
Display == [k |-> "st", id |-> <<100, 105, 115, 112, 108, 97, 121, 95, 116>>, n |-> <<<<108, 105, 109, 105, 116, 76, 111, 119>>, <<108, 105, 109, 105, 116, 72, 105, 103, 104>>, <<100, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>, <<102, 111, 114, 109, 97, 116>>, <<117, 110, 105, 116, 115>>>>, f |-> <<Sc("double"), Sc("double"), Sc("string"), Sc("string"), Sc("string")>>]
\* control_t limitLow limitHigh minStep
Control == [k |-> "st", id |-> <<99, 111, 110, 116, 114, 111, 108, 95, 116>>, n |-> <<<<108, 105, 109, 105, 116, 76, 111, 119>>, <<108, 105, 109, 105, 116, 72, 105, 103, 104>>, <<109, 105, 110, 83, 116, 101, 112>>>>, f |-> <<Sc("double"), Sc("double"), Sc("double")>>]
\* valueAlarm_t active falseSeverity trueSeverity changeStateSeverity
BoolAlarm == [k |-> "st", id |-> <<118, 97, 108, 117, 101, 65, 108, 97, 114, 109, 95, 116>>, n |-> <<<<97, 99, 116, 105, 118, 101>>, <<102, 97, 108, 115, 101, 83, 101, 118, 101, 114, 105, 116, 121>>, <<116, 114, 117, 101, 83, 101, 118, 101, 114, 105, 116, 121>>, <<99, 104, 97, 110, 103, 101, 83, 116, 97, 116, 101, 83, 101, 118, 101, 114, 105, 116, 121>>>>, f |-> <<Sc("boolean"), Sc("int"), Sc("int"), Sc("int")>>]
\* valueAlarm_t active stateSeverity changeStateSeverity
EnumAlarm == [k |-> "st", id |-> <<118, 97, 108, 117, 101, 65, 108, 97, 114, 109, 95, 116>>, n |-> <<<<97, 99, 116, 105, 118, 101>>, <<115, 116, 97, 116, 101, 83, 101, 118, 101, 114, 105, 116, 121>>, <<99, 104, 97, 110, 103, 101, 83, 116, 97, 116, 101, 83, 101, 118, 101, 114, 105, 116, 121>>>>, f |-> <<Sc("boolean"), Sc("int"), Sc("int")>>]
\* valueAlarm_t active {low,high}{Alarm,Warning}Limit of the type, ...Severity, hysteresis
NumAlarm(t) == [k |-> "st", id |-> <<118, 97, 108, 117, 101, 65, 108, 97, 114, 109, 95, 116>>, n |-> <<<<97, 99, 116, 105, 118, 101>>, <<108, 111, 119, 65, 108, 97, 114, 109, 76, 105, 109, 105, 116>>, <<108, 111, 119, 87, 97, 114, 110, 105, 110, 103, 76, 105, 109, 105, 116>>, <<104, 105, 103, 104, 87, 97, 114, 110, 105, 110, 103, 76, 105, 109, 105, 116>>, <<104, 105, 103, 104, 65, 108, 97, 114, 109, 76, 105, 109, 105, 116>>, <<108, 111, 119, 65, 108, 97, 114, 109, 83, 101, 118, 101, 114, 105, 116, 121>>, <<108, 111, 119, 87, 97, 114, 110, 105, 110, 103, 83, 101, 118, 101, 114, 105, 116, 121>>, <<104, 105, 103, 104, 87, 97, 114, 110, 105, 110, 103, 83, 101, 118, 101, 114, 105, 116, 121>>, <<104, 105, 103, 104, 65, 108, 97, 114, 109, 83, 101, 118, 101, 114, 105, 116, 121>>, <<104, 121, 115, 116, 101, 114, 101, 115, 105, 115>>>>, f |-> <<Sc("boolean"), Sc(t), Sc(t), Sc(t), Sc(t), Sc("int"), Sc("int"), Sc("int"), Sc("int"), Sc("byte")>>]
\* enum_t index choices
EnumT == [k |-> "st", id |-> <<101, 110, 117, 109, 95, 116>>, n |-> <<<<105, 110, 100, 101, 120>>, <<99, 104, 111, 105, 99, 101, 115>>>>, f |-> <<Sc("int"), Sa("string")>>]
Props == <<"alarm", "timeStamp", "display", "control", "valueAlarm">>
PropName(p) == CASE p = "alarm" -> <<97, 108, 97, 114, 109>>
  [] p = "timeStamp" -> <<116, 105, 109, 101, 83, 116, 97, 109, 112>>
  [] p = "display" -> <<100, 105, 115, 112, 108, 97, 121>>
  [] p = "control" -> <<99, 111, 110, 116, 114, 111, 108>>
  [] p = "valueAlarm" -> <<118, 97, 108, 117, 101, 65, 108, 97, 114, 109>>
VALUE == <<118, 97, 108, 117, 101>>
\* epics:nt/NT...:1.0
IdOf(k) == CASE k = "scalar" -> <<101, 112, 105, 99, 115, 58, 110, 116, 47, 78, 84, 83, 99, 97, 108, 97, 114, 58, 49, 46, 48>>
  [] k = "scalarArray" -> <<101, 112, 105, 99, 115, 58, 110, 116, 47, 78, 84, 83, 99, 97, 108, 97, 114, 65, 114, 114, 97, 121, 58, 49, 46, 48>>
  [] k = "structureArray" -> <<101, 112, 105, 99, 115, 58, 110, 116, 47, 78, 84, 83, 116, 114, 117, 99, 116, 117, 114, 101, 65, 114, 114, 97, 121, 58, 49, 46, 48>>
  [] k = "regUnion" -> <<101, 112, 105, 99, 115, 58, 110, 116, 47, 78, 84, 85, 110, 105, 111, 110, 58, 49, 46, 48>>
  [] k = "variantUnion" -> <<101, 112, 105, 99, 115, 58, 110, 116, 47, 78, 84, 85, 110, 105, 111, 110, 58, 49, 46, 48>>
  [] k = "unionArray" -> <<101, 112, 105, 99, 115, 58, 110, 116, 47, 78, 84, 85, 110, 105, 111, 110, 65, 114, 114, 97, 121, 58, 49, 46, 48>>
  [] k = "enumerated" -> <<101, 112, 105, 99, 115, 58, 110, 116, 47, 78, 84, 69, 110, 117, 109, 58, 49, 46, 48>>
(* which values have alarm limits: [ok, t] *)
ValAlarm(k, t) == CASE k = "enumerated" -> [ok |-> TRUE, t |-> EnumAlarm]
  [] k \in {"scalar", "scalarArray"} -> IF t.t = "string" THEN [ok |-> FALSE] ELSE [ok |-> TRUE, t |-> IF t.t = "boolean" THEN BoolAlarm ELSE NumAlarm(t.t)]
  [] OTHER -> [ok |-> FALSE]
PropType(p, k, t) == CASE p = "alarm" -> Alarm [] p = "timeStamp" -> TimeStamp [] p = "display" -> Display [] p = "control" -> Control [] OTHER -> ValAlarm(k, t).t
CanHave(k, t, ps) == "valueAlarm" \in ps => ValAlarm(k, t).ok
(* the standard structure of kind k for a value of type t with the set ps of properties *)
StdType(k, t, ps) ==
  LET q == SelectSeq(Props, LAMBDA p : p \in ps) IN
  [k |-> "st", id |-> IdOf(k), n |-> <<VALUE>> \o [i \in 1..Len(q) |-> PropName(q[i])], f |-> <<t>> \o [i \in 1..Len(q) |-> PropType(q[i], k, t)]]
(* its value when created, with the choices of an enumeration *)
StdVal(k, t, ps, ch) == LET v == Default(StdType(k, t, ps)) IN IF k = "enumerated" THEN [v EXCEPT !.f[1] = [f |-> <<<<0, 0, 0, 0>>, ch>>]] ELSE v
=============================================================================
