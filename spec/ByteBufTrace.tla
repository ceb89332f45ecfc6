---------------------------- MODULE ByteBufTrace ----------------------------
EXTENDS ByteBuf, TraceBase
VARIABLE s
tvars == <<l, s>>
HostLittle == TRUE
Kinds == {"clear","flip","rewind","setpos","setlim","endian","put","get","putat","getat","puta","geta","putb","getb","getbool","getboolat","nop"}
Obs(e, x) == /\ e.mem = x.mem /\ e.guard /\ e.pos = x.pos /\ e.lim = x.lim /\ e.rem = x.lim - x.pos /\ e.cap = Len(x.mem)
             /\ e.rev = [k \in 1..11 |-> k > 3 /\ x.bo = "B"]     \* host is little endian
TInit == l = 1 /\ s = New(1, "B")
TNext == LET e == Trace[l] IN
  /\ l <= TLen /\ l' = l + 1
  /\ IF e.op = "Start" THEN s' = New(e.cap, e.bo) ELSE e.op \in Kinds /\ Pre(e, s) /\ Result(e, s) /\ s' = Do(e, s)
  /\ Obs(e, s') /\ Sane(s')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
