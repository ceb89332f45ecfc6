------------------------------- MODULE AnysMC -------------------------------
EXTENDS Anys, TLC
CONSTANTS H, Types, Vals
VARIABLES S, op
vars == <<S, op>>
Seen == S
All == {Nil} \cup {Val(t, v) : t \in Types, v \in Vals}
Init == S = [h \in H |-> Nil] /\ op = [o |-> "init", a |-> {}]
Do(T, o, a) == S' = T /\ op' = [o |-> o, a |-> a]
Next ==
  \/ \E d \in H, t \in Types, v \in Vals : Do(Put(S, d, Val(t, v)), "put", {d})
  \/ \E d, s \in H : Do(Copy(S, d, s), "copy", {d})
  \/ \E d, s \in H : d # s /\ Do(Move(S, d, s), "move", {d, s})
  \/ \E d, s \in H : Do(Swap2(S, d, s), "swap", {d, s})
  \/ \E d \in H : Do(Clear(S, d), "clear", {d})
  \/ \E d \in H, t \in Types, v \in Vals : Do(RefSet(S, d, t, v), "ref", {d})
Spec == Init /\ [][Next]_vars
TypeOK == \A h \in H : S[h] \in All
Contents(T) == [x \in All |-> {h \in H : T[h] = x}]
(* only the holders named change; copies are independent *)
Others == [][\A h \in H : h \notin op'.a => S'[h] = S[h]]_vars
(* moving and swapping neither duplicate nor lose a value *)
Held(T) == [h \in H |-> T[h]]
Conserve == [][op'.o = "swap" => \E f \in [H -> H] : (\A a, b \in H : f[a] = f[b] => a = b) /\ \A h \in H : S'[h] = S[f[h]]]_vars
Moved == [][op'.o = "move" => \A x \in All \ {Nil} : Contents(S')[x] # {} => Contents(S)[x] # {}]_vars
KeepType == [][op'.o = "ref" => \A h \in H : S'[h].t = S[h].t]_vars
=============================================================================
