----------------------------- MODULE RequestsMC -----------------------------
(* All strings over an alphabet up to length N, after a prefix; and all      *)
(* small trees rendered and parsed.                                          *)
EXTENDS Requests, TLC
CONSTANTS Alphabet, N
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Opt1 == <<[n |-> <<97>>, v |-> <<49>>]>>
Twigs == {Node(n, o, <<>>) : n \in {<<97>>, <<98, 95>>}, o \in {<<>>, Opt1}}
Lists(X) == {<<x>> : x \in X} \cup {x \in X \X X : x[1].n # x[2].n}
Nodes2 == {Node(<<99>>, o, c) : o \in {<<>>, Opt1}, c \in Lists(Twigs)}
Nodes3 == {Node(<<100>>, <<>>, <<x>>) : x \in Nodes2} \cup {Node(<<100>>, Opt1, <<x, y>>) : x \in Nodes2, y \in Twigs}
Trees == {<<x>> : x \in Nodes3} \cup Lists(Twigs \cup Nodes2)
RoundTrip == s = <<>> => \A t \in Trees, d \in BOOLEAN : LET x == RenderL(t, 1, d) IN
  /\ Class(x) = [k |-> "ok", c |-> <<Node(FIELD, <<>>, t)>>]
  /\ Class(FIELD \o <<OP>> \o x \o <<CP>>) = Class(x)
  /\ Class(RECORD \o <<OB, 97, EQ, 49, CB>> \o PUTFIELD \o <<OP>> \o x \o <<CP, COMMA>> \o FIELD \o <<OP>> \o x \o <<CP>>)
       = [k |-> "ok", c |-> <<Node(RECORD, Opt1, <<>>), Node(FIELD, <<>>, t), Node(PUTFIELD, <<>>, t)>>]
  /\ Class(Append(x, COMMA)) = Bad0 /\ Class(<<COMMA>> \o x) = Bad0 /\ Class(Append(x, DOT)) = Bad0 /\ Class(x \o <<OC, CC>>) = Bad0 /\ Class(x \o <<OB, CB>>) = Bad0
  /\ Class(x \o <<COMMA>> \o x) = Bad0 /\ Class(SubSeq(x, 1, Len(x) - 1)).k \in {"bad", "ok"}
(* blanks do not matter; dots and braces say the same *)
Laws == LET c == Class(s) IN
  /\ \A i \in 0..Len(s) : Class(SubSeq(s, 1, i) \o <<BLANK>> \o SubSeq(s, i + 1, Len(s))) = c
  /\ (c.k = "ok" /\ s # <<>> /\ Len(c.c) = 1 /\ ~HasSection(s)) => \A d \in BOOLEAN : Class(RenderL(c.c[1].c, 1, d)) = c
=============================================================================
