------------------------------ MODULE ByteBuf -------------------------------
(* A byte buffer: memory, cursor, limit and byte order (C03).               *)
EXTENDS Wire
(* state s = [mem, pos, lim, bo]; capacity is Len(s.mem) *)
New(cap, b) == [mem |-> [i \in 1..cap |-> 0], pos |-> 0, lim |-> cap, bo |-> b]
Cap(s) == Len(s.mem)
Write(s, at, by) == [s EXCEPT !.mem = [i \in 1..Len(s.mem) |-> IF i > at /\ i <= at + Len(by) THEN by[i - at] ELSE s.mem[i]]]
ReadAt(s, at, n) == SubSeq(s.mem, at + 1, at + n)
(* precondition of operation o in s, as documented *)
Pre(o, s) ==
  CASE o.op \in {"put", "get"} -> o.z <= s.lim - s.pos
    [] o.op \in {"putat", "getat"} -> o.i + o.z <= s.lim
    [] o.op \in {"puta", "geta"} -> Len(o.v) * o.z <= s.lim - s.pos
    [] o.op \in {"putb", "getb"} -> Len(o.v) <= s.lim - s.pos
    [] o.op = "setpos" -> o.i <= s.lim
    [] o.op = "setlim" -> o.i >= s.pos /\ o.i <= Cap(s)
    [] OTHER -> TRUE
Elems(s, v) == Cat([k \in 1..Len(v) |-> Ord(s.bo, v[k])])
Do(o, s) ==
  CASE o.op = "clear"  -> [s EXCEPT !.pos = 0, !.lim = Cap(s)]
    [] o.op = "flip"   -> [s EXCEPT !.lim = s.pos, !.pos = 0]
    [] o.op = "rewind" -> [s EXCEPT !.pos = 0]
    [] o.op = "setpos" -> [s EXCEPT !.pos = o.i]
    [] o.op = "setlim" -> [s EXCEPT !.lim = o.i]
    [] o.op = "endian" -> [s EXCEPT !.bo = o.bo]
    [] o.op = "put"    -> [Write(s, s.pos, Ord(s.bo, o.v)) EXCEPT !.pos = s.pos + o.z]
    [] o.op = "get"    -> [s EXCEPT !.pos = s.pos + o.z]
    [] o.op = "getbool" -> [s EXCEPT !.pos = s.pos + 1]
    [] o.op = "putat"  -> Write(s, o.i, Ord(s.bo, o.v))
    [] o.op = "putb"   -> [Write(s, s.pos, o.v) EXCEPT !.pos = s.pos + Len(o.v)]
    [] o.op = "getb"   -> [s EXCEPT !.pos = s.pos + Len(o.v)]
    [] o.op = "puta"   -> [Write(s, s.pos, Elems(s, o.v)) EXCEPT !.pos = s.pos + Len(o.v) * o.z]
    [] o.op = "geta"   -> [s EXCEPT !.pos = s.pos + Len(o.v) * o.z]
    [] o.op \in {"getat", "getboolat", "nop"} -> s
(* what a reading operation must return *)
Result(o, s) ==
  CASE o.op = "get"   -> o.v = Ord(s.bo, ReadAt(s, s.pos, o.z))
    [] o.op = "getat" -> o.v = Ord(s.bo, ReadAt(s, o.i, o.z))
    [] o.op = "getb"  -> o.v = ReadAt(s, s.pos, Len(o.v)) /\ o.clean
    [] o.op = "geta"  -> \A k \in 1..Len(o.v) : o.v[k] = Ord(s.bo, ReadAt(s, s.pos + (k - 1) * o.z, o.z))
    [] o.op = "getbool" -> o.v = (s.mem[s.pos + 1] # 0)
    [] o.op = "getboolat" -> o.v = (s.mem[o.i + 1] # 0)
    [] OTHER -> TRUE
Sane(s) == 0 <= s.pos /\ s.pos <= s.lim /\ s.lim <= Cap(s)
=============================================================================
