------------------------------ MODULE Requests ------------------------------
(* Request strings.  A node is [n name, o options, c child nodes]; options   *)
(* and children are sequences.                                               *)
(*   request := list | (section [,])...                                      *)
(*   section := record[ [options] ] | field( [list] ) | getField(..) | putField(..)  *)
(*   list    := item , ...                                                   *)
(*   item    := name [ [options] ] [ . item | { list } ]                     *)
(*   options := name = value , ...                                           *)
EXTENDS PVTypes
BLANK == 32  DOT == 46  COMMA == 44  EQ == 61
OB == 91  CB == 93  OC == 123  CC == 125  OP == 40  CP == 41
Special == {OB, CB, OC, CC, OP, CP, DOT, COMMA}
Strip(s) == SelectSeq(s, LAMBDA c : c # BLANK)
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
NoP == [ok |-> FALSE, i |-> 0, v |-> <<>>]
P(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ s[i] \notin Special THEN NameEnd(s, i + 1) ELSE i
RECURSIVE Find(_, _, _)             \* first position >= i with a character of C, Len+1 if none
Find(s, i, C) == IF i > Len(s) \/ s[i] \in C THEN i ELSE Find(s, i + 1, C)
OptionsName == <<95, 111, 112, 116, 105, 111, 110, 115>>
Node(n, o, c) == [n |-> n, o |-> o, c |-> c]
Distinct(x) == \A i, j \in 1..Len(x) : x[i].n = x[j].n => i = j
(* options: i behind the opening bracket; result index behind the closing one *)
RECURSIVE Opts(_, _)
Opts(s, i) ==
  LET q == Find(s, i, {EQ, COMMA, CB})  e == Find(s, q + 1, {COMMA, CB})  o == [n |-> SubSeq(s, i, q - 1), v |-> SubSeq(s, q + 1, e - 1)] IN
  IF At(s, q) # EQ \/ q = i \/ ~NameOk(o.n) \/ e > Len(s) THEN NoP
  ELSE IF s[e] = CB THEN P(e + 1, <<o>>)
  ELSE LET r == Opts(s, e + 1) IN IF r.ok THEN P(r.i, <<o>> \o r.v) ELSE NoP
OptsOk(r) == r.ok /\ Distinct(r.v)
RECURSIVE Item(_, _), Items(_, _)
Item(s, i) ==
  LET e == NameEnd(s, i)  nm == SubSeq(s, i, e - 1)
      o == IF At(s, e) = OB THEN Opts(s, e + 1) ELSE P(e, <<>>) IN
  IF ~NameOk(nm) \/ ~OptsOk(o) THEN NoP
  ELSE CASE At(s, o.i) = DOT -> (LET r == Item(s, o.i + 1) IN IF r.ok THEN P(r.i, Node(nm, o.v, <<r.v>>)) ELSE NoP)
         [] At(s, o.i) = OC -> (LET r == Items(s, o.i + 1) IN IF r.ok /\ At(s, r.i) = CC /\ Distinct(r.v) THEN P(r.i + 1, Node(nm, o.v, r.v)) ELSE NoP)
         [] OTHER -> P(o.i, Node(nm, o.v, <<>>))
Items(s, i) == LET r == Item(s, i) IN
  IF ~r.ok THEN NoP ELSE IF At(s, r.i) = COMMA THEN (LET t == Items(s, r.i + 1) IN IF t.ok THEN P(t.i, <<r.v>> \o t.v) ELSE NoP) ELSE P(r.i, <<r.v>>)
(* a whole text is a list *)
List(s) == LET r == Items(s, 1) IN IF r.ok /\ r.i = Len(s) + 1 /\ Distinct(r.v) THEN r ELSE NoP
-----------------------------------------------------------------------------
RECORD == <<114, 101, 99, 111, 114, 100>>
FIELD == <<102, 105, 101, 108, 100>>
GETFIELD == <<103, 101, 116, 70, 105, 101, 108, 100>>
PUTFIELD == <<112, 117, 116, 70, 105, 101, 108, 100>>
Heads == <<RECORD, FIELD, GETFIELD, PUTFIELD>>
Open(h) == IF h = 1 THEN OB ELSE OP
Close(h) == IF h = 1 THEN CB ELSE CP
HeadAt(s, i) == {h \in 1..4 : LET w == Append(Heads[h], Open(h)) IN i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w}
Cnt(s, C) == Len(SelectSeq(s, LAMBDA c : c \in C))
Balanced(s) == Cnt(s, {OB}) = Cnt(s, {CB}) /\ Cnt(s, {OC}) = Cnt(s, {CC}) /\ Cnt(s, {OP}) = Cnt(s, {CP})
DepthAt(s, i) == LET p == SubSeq(s, 1, i - 1) IN Cnt(p, {OB, OC, OP}) - Cnt(p, {CB, CC, CP})
HasSection(s) == \E i \in 1..Len(s) : HeadAt(s, i) # {} /\ DepthAt(s, i) <= 0 /\ (i = 1 \/ ~(NameChar(s[i - 1]) \/ s[i - 1] = DOT))
(* the sections of s from i on: [h, t content]; every section at most once *)
RECURSIVE Sections(_, _)
Sections(s, i) ==
  IF i = Len(s) + 1 THEN P(i, <<>>)
  ELSE LET H == HeadAt(s, i) IN
  IF H = {} THEN NoP
  ELSE LET h == CHOOSE x \in H : TRUE  b == i + Len(Heads[h]) + 1  e == Find(s, b, {Close(h)})  k == IF At(s, e + 1) = COMMA THEN e + 2 ELSE e + 1
           r == IF e > Len(s) THEN NoP ELSE Sections(s, k) IN
  IF ~r.ok \/ (\E j \in 1..Len(r.v) : r.v[j].h = h) THEN NoP ELSE P(r.i, <<[h |-> h, t |-> SubSeq(s, b, e - 1)]>> \o r.v)
(* section h as nodes of the top level: ok, and the node if there is one *)
Sect(x) == IF x.h = 1 THEN (IF x.t = <<>> THEN P(1, <<>>) ELSE LET r == Opts(Append(x.t, CB), 1) IN IF OptsOk(r) /\ r.i = Len(x.t) + 2 THEN P(1, <<Node(RECORD, r.v, <<>>)>>) ELSE NoP)
           ELSE IF x.t = <<>> THEN P(1, <<Node(Heads[x.h], <<>>, <<>>)>>)
           ELSE LET r == List(x.t) IN IF r.ok THEN P(1, <<Node(Heads[x.h], <<>>, r.v)>>) ELSE NoP
(* names and values the grammar leaves open *)
RECURSIVE Odd(_)
Odd(c) == \E i \in 1..Len(c) : c[i].n = OptionsName \/ Odd(c[i].c) \/ \E k \in 1..Len(c[i].o) : c[i].o[k].v = <<>> \/ \E j \in 1..Len(c[i].o[k].v) : c[i].o[k].v[j] \in Special \ {DOT}
Open0 == [k |-> "open", c |-> <<>>]
Bad0 == [k |-> "bad", c |-> <<>>]
WF(c) == IF Odd(c) THEN Open0 ELSE [k |-> "ok", c |-> c]
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE x[1] \o Flat(Tail(x))
(* ok: with the nodes of the top level; bad: must be refused; open *)
Class(s0) == LET s == Strip(s0) IN
  IF s = <<>> THEN WF(<<>>)
  ELSE IF ~Balanced(s) THEN Bad0
  ELSE IF ~HasSection(s) THEN (LET r == List(s) IN IF r.ok THEN WF(<<Node(FIELD, <<>>, r.v)>>) ELSE Bad0)
  ELSE LET S == Sections(s, 1)  of(h) == SelectSeq(S.v, LAMBDA x : x.h = h)
           all == [h \in 1..4 |-> IF of(h) = <<>> THEN P(1, <<>>) ELSE Sect(of(h)[1])] IN
  IF ~S.ok THEN Open0
  ELSE IF \E h \in 1..4 : ~all[h].ok THEN Bad0
  ELSE WF(all[1].v \o all[2].v \o all[3].v \o all[4].v)
-----------------------------------------------------------------------------
(* text of a list of nodes; dot: single children with dots *)
RECURSIVE RenderL(_, _, _), RenderN(_, _), RenderO(_, _)
RenderO(o, i) == IF i > Len(o) THEN <<>> ELSE (IF i > 1 THEN <<COMMA>> ELSE <<>>) \o o[i].n \o <<EQ>> \o o[i].v \o RenderO(o, i + 1)
RenderN(x, dot) == x.n \o (IF x.o = <<>> THEN <<>> ELSE <<OB>> \o RenderO(x.o, 1) \o <<CB>>)
  \o (IF x.c = <<>> THEN <<>> ELSE IF dot /\ Len(x.c) = 1 THEN <<DOT>> \o RenderN(x.c[1], dot) ELSE <<OC>> \o RenderL(x.c, 1, dot) \o <<CC>>)
RenderL(c, i, dot) == IF i > Len(c) THEN <<>> ELSE (IF i > 1 THEN <<COMMA>> ELSE <<>>) \o RenderN(c[i], dot) \o RenderL(c, i + 1, dot)
=============================================================================
