----------------------------- MODULE Transport ------------------------------
(* The buffered transport contract every codec relies on (C02 C04 C05 C06   *)
(* C07).  A writer emits items into a bounded buffer that it may flush; a   *)
(* reader asks for contiguous bytes and receives the stream in arbitrary    *)
(* pieces.  "atom": must be contiguous (ensureBuffer/ensureData); "bulk":   *)
(* copied piecewise, flushing or waiting for at least one byte whenever the *)
(* buffer is exhausted (strings, arrays).                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS WCap, RCap, MaxItems, MaxBulk
VARIABLES msg,            \* the items: sequence of [k, n]
          wi, wo,         \* writer: item index, bytes of it done
          wbuf, wlim,     \* buffered bytes, window currently usable
          wire,           \* bytes flushed and not yet fed to the reader
          ri, ro, rbuf, got
vars == <<msg, wi, wo, wbuf, wlim, wire, ri, ro, rbuf, got>>
Min(a, b) == IF a < b THEN a ELSE b
Items == [k : {"atom"}, n : 1..Min(WCap, RCap)] \cup [k : {"bulk"}, n : 0..MaxBulk]
Msgs == UNION {[1..m -> Items] : m \in 1..MaxItems}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1].n + Sum(Tail(s))
Total == Sum(msg)
Before(i) == Sum(SubSeq(msg, 1, i - 1))
Ints(a, b) == [q \in 1..(b - a) |-> a + q]      \* the bytes of the stream are its positions
Init == /\ msg \in Msgs /\ wi = 1 /\ wo = 0 /\ wbuf = <<>> /\ wlim \in 1..WCap
        /\ wire = <<>> /\ ri = 1 /\ ro = 0 /\ rbuf = <<>> /\ got = <<>>
WDone == wi > Len(msg)
Room == wlim - Len(wbuf)
Flush(need) == /\ wire' = wire \o wbuf /\ wbuf' = <<>> /\ wlim' \in need..WCap
WPut(n) == /\ wbuf' = wbuf \o Ints(Before(wi) + wo, Before(wi) + wo + n)
           /\ IF wo + n = msg[wi].n THEN wi' = wi + 1 /\ wo' = 0 ELSE wi' = wi /\ wo' = wo + n
WAtom == /\ ~WDone /\ msg[wi].k = "atom"
         /\ IF Room < msg[wi].n THEN Flush(msg[wi].n) /\ UNCHANGED <<wi, wo>>
            ELSE WPut(msg[wi].n) /\ UNCHANGED <<wire, wlim>>
         /\ UNCHANGED <<msg, ri, ro, rbuf, got>>
WBulk == /\ ~WDone /\ msg[wi].k = "bulk"
         /\ LET n == Min(msg[wi].n - wo, Room) IN
            IF n = 0 /\ msg[wi].n > wo THEN Flush(1) /\ UNCHANGED <<wi, wo>>
            ELSE WPut(n) /\ UNCHANGED <<wire, wlim>>
         /\ UNCHANGED <<msg, ri, ro, rbuf, got>>
WEnd == /\ WDone /\ wbuf # <<>> /\ Flush(1) /\ UNCHANGED <<msg, wi, wo, ri, ro, rbuf, got>>
RDone == ri > Len(msg)
Feed(need) == /\ Len(rbuf) < need /\ \E k \in 1..Min(RCap - Len(rbuf), Len(wire)) :
                 /\ Len(rbuf) + k >= need
                 /\ rbuf' = rbuf \o SubSeq(wire, 1, k) /\ wire' = SubSeq(wire, k + 1, Len(wire))
              /\ UNCHANGED <<msg, wi, wo, wbuf, wlim, ri, ro, got>>
RTake(n) == /\ got' = got \o SubSeq(rbuf, 1, n) /\ rbuf' = SubSeq(rbuf, n + 1, Len(rbuf))
            /\ IF ro + n = msg[ri].n THEN ri' = ri + 1 /\ ro' = 0 ELSE ri' = ri /\ ro' = ro + n
            /\ UNCHANGED <<msg, wi, wo, wbuf, wlim, wire>>
RAtom == /\ ~RDone /\ msg[ri].k = "atom"
         /\ IF Len(rbuf) < msg[ri].n THEN Feed(msg[ri].n) ELSE RTake(msg[ri].n)
RBulk == /\ ~RDone /\ msg[ri].k = "bulk"
         /\ LET n == Min(msg[ri].n - ro, Len(rbuf)) IN
            IF n = 0 /\ msg[ri].n > ro THEN Feed(1) ELSE RTake(n)
Next == WAtom \/ WBulk \/ WEnd \/ RAtom \/ RBulk
Spec == Init /\ [][Next]_vars /\ WF_vars(WAtom \/ WBulk \/ WEnd) /\ WF_vars(RAtom \/ RBulk)
(* nothing is lost, duplicated or reordered at any moment *)
Conserved == got \o rbuf \o wire \o wbuf = Ints(0, Before(wi) + wo)
InOrder == got = Ints(0, Before(ri) + ro)
Bounded == Len(wbuf) <= wlim /\ wlim <= WCap /\ Len(rbuf) <= RCap
Complete == RDone => got = Ints(0, Total) /\ rbuf = <<>> /\ wire = <<>> /\ wbuf = <<>>
Finishes == <>(RDone /\ WDone)
=============================================================================
