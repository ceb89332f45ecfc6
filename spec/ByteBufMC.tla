----------------------------- MODULE ByteBufMC ------------------------------
(* Exhaustive: every operation from every reachable state of small buffers. *)
EXTENDS ByteBuf
CONSTANTS MaxCap, Vals, Sizes, MaxPuts
VARIABLES s, last, puts
vars == <<s, last, puts>>
Strs(n) == [1..n -> Vals]
Ops(cap) == [op : {"clear", "flip", "rewind"}] \cup [op : {"setpos", "setlim"}, i : 0..cap] \cup [op : {"endian"}, bo : {"B", "L"}]
  \cup UNION {[op : {"put"}, z : {z}, v : Strs(z)] \cup [op : {"putat"}, z : {z}, i : 0..cap, v : Strs(z)]
              \cup UNION {[op : {"puta"}, z : {z}, v : [1..n -> Strs(z)]] : n \in 0..(cap \div z)} : z \in Sizes}
None == [op |-> "nop"]
Init == s \in {New(c, b) : c \in 1..MaxCap, b \in {"B", "L"}} /\ last = None /\ puts = 0
Next == \E o \in Ops(Cap(s)) : /\ Pre(o, s) /\ s' = Do(o, s) /\ last' = o
          /\ puts' = puts + (IF o.op \in {"put", "putat", "puta"} THEN 1 ELSE 0) /\ puts' <= MaxPuts
Spec == Init /\ [][Next]_vars
View == <<s, puts>>
CursorsOk == Sane(s)
(* read-your-writes, and only the written range changes *)
PutThenGet == [][LET o == last' IN
    /\ o.op = "put"   => Result([op |-> "get", z |-> o.z, v |-> o.v], [s' EXCEPT !.pos = s.pos])
    /\ o.op = "putat" => Result([op |-> "getat", z |-> o.z, i |-> o.i, v |-> o.v], s')
    /\ o.op = "puta"  => Result([op |-> "geta", z |-> o.z, v |-> o.v], [s' EXCEPT !.pos = s.pos])
    /\ \A i \in 1..Len(s.mem) : s'.mem[i] # s.mem[i] =>
          (CASE o.op = "put" -> i > s.pos /\ i <= s'.pos
             [] o.op = "puta" -> i > s.pos /\ i <= s'.pos
             [] o.op = "putat" -> i > o.i /\ i <= o.i + o.z
             [] OTHER -> FALSE)
    /\ (o.op \in {"putat", "endian"} => s'.pos = s.pos) /\ (o.op \notin {"clear", "flip", "setlim"} => s'.lim = s.lim)]_vars
=============================================================================
