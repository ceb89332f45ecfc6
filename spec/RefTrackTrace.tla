--------------------------- MODULE RefTrackTrace ---------------------------
EXTENDS RefTrack, TraceBase
VARIABLES R, sn, base, mon
vars == <<l, R, sn, base, mon>>
(* counters of the tracked classes *)
KF == 101  KP == 102  KT == 103
Builtin == {<<"Field", KF>>, <<"PVField", KP>>, <<"Thread", KT>>}
MonOff == [on |-> FALSE, period |-> 0, prev |-> NoFun, due |-> 0]
R0(b) == [reg |-> [n \in {x[1] : x \in Builtin} |-> (CHOOSE x \in Builtin : x[1] = n)[2]],
          val |-> [k \in {KF, KP, KT} \cup 0..5 |-> IF k < 6 THEN 0 ELSE IF k = KF THEN b[1] ELSE IF k = KP THEN b[2] ELSE b[3]]]
TInit == l = 1 /\ R = R0(<<0, 0, 0>>) /\ sn = NoFun /\ base = <<0, 0, 0>> /\ mon = MonOff
(* a logged snapshot: sequence of [n, c, d] *)
SnapOf(m) == [n \in {m[i].n : i \in 1..Len(m)} |-> LET i == CHOOSE i \in 1..Len(m) : m[i].n = n IN [c |-> m[i].c, d |-> m[i].d]]
Same(m, s) == Len(m) = Cardinality(DOMAIN s) /\ SnapOf(m) = s
Sn(i) == IF i \in DOMAIN sn THEN sn[i] ELSE NoFun
(* the text of a snapshot lists exactly the changed counters *)
Lines(s) == {[n |-> n, c |-> s[n].c, d |-> s[n].d] : n \in {x \in DOMAIN s : s[x].d # 0}}
Text(t, s) == Cardinality(Lines(s)) = Len(t) /\ SeqToSet(t) = Lines(s)
Union1(live, what) == UNION {SeqToSet(live[i][what]) : i \in 1..Len(live)}
Keep == UNCHANGED <<R, sn, base, mon>>
Step(e) ==
  CASE e.op = "Start" -> R' = R0(e.base) /\ sn' = NoFun /\ base' = e.base /\ mon' = MonOff
    [] e.op = "reg" -> R' = Register(R, e.n, e.k) /\ UNCHANGED <<sn, base, mon>>
    [] e.op = "unreg" -> R' = Unregister(R, e.n, e.k) /\ UNCHANGED <<sn, base, mon>>
    [] e.op = "count" -> R' = SetCounter(R, e.k, e.v) /\ UNCHANGED <<sn, base, mon>>
    [] e.op = "read" -> e.r = Read(R, e.n) /\ Keep
    [] e.op = "snap" -> Same(e.m, Snapshot(R)) /\ sn' = Set1(sn, e.i, Snapshot(R)) /\ UNCHANGED <<R, base, mon>>
    [] e.op = "diff" -> LET d == Minus(Sn(e.i), Sn(e.j)) IN Same(e.m, d) /\ sn' = Set1(sn, e.o, d) /\ UNCHANGED <<R, base, mon>>
    [] e.op = "at" -> <<e.c, e.d>> = <<Cnt(Sn(e.i), e.n).c, Cnt(Sn(e.i), e.n).d>> /\ Keep
    [] e.op = "swap" -> sn' = Set1(Set1(sn, e.i, Sn(e.j)), e.j, Sn(e.i)) /\ e.zi = Cardinality(DOMAIN Sn(e.j)) /\ e.zj = Cardinality(DOMAIN Sn(e.i)) /\ UNCHANGED <<R, base, mon>>
    [] e.op = "print" -> Text(e.t, Sn(e.i)) /\ Keep
    [] e.op = "text" -> Text(e.t, Minus(Snapshot(R), NoFun)) /\ Keep
    (* live: the objects that can be reached from what the driver holds *)
    [] e.op = "obj" -> LET f == base[1] + Cardinality(Union1(e.live, "f") \ SeqToSet(e.perm))  p == base[2] + Cardinality(Union1(e.live, "p")) IN
         /\ e.rf = f /\ e.rp = p /\ e.rt = base[3] + e.nt
         /\ R' = SetCounter(SetCounter(SetCounter(R, KF, f), KP, p), KT, base[3] + e.nt) /\ UNCHANGED <<sn, base, mon>>
    [] e.op = "conc" -> LET f == base[1] + Cardinality(Union1(e.live, "f") \ SeqToSet(e.perm))  p == base[2] + Cardinality(Union1(e.live, "p")) IN
         /\ e.lof >= f /\ e.lop >= p /\ e.rf = f /\ e.rp = p /\ e.inc = e.exp /\ e.bad = 0 /\ Keep      \* bad: a thread not seeing its own registrations
    [] e.op = "mstart" -> /\ mon' = (IF mon.on THEN mon ELSE [mon EXCEPT !.on = TRUE, !.period = e.p, !.due = e.t]) /\ UNCHANGED <<R, sn, base>>
    [] e.op = "mstop" -> /\ (mon.on => e.t <= mon.due) /\ mon' = [mon EXCEPT !.on = FALSE] /\ UNCHANGED <<R, sn, base>>
    [] e.op = "mrun" -> e.r = mon.on /\ Keep
    [] e.op = "show" -> /\ (IF e.complete THEN UNCHANGED mon ELSE mon.on /\ e.t = mon.due /\ mon' = [mon EXCEPT !.prev = Snapshot(R), !.due = e.t + mon.period])
                        /\ Same(e.m, Minus(Snapshot(R), mon.prev))
                        /\ e.complete \/ Text(e.x, SnapOf(e.m))
                        /\ e.complete => SeqToSet(e.x) = {[n |-> n, c |-> SnapOf(e.m)[n].c, d |-> SnapOf(e.m)[n].d] : n \in {y \in DOMAIN SnapOf(e.m) : SnapOf(e.m)[y].c # 0 \/ SnapOf(e.m)[y].d # 0}}
                        /\ UNCHANGED <<R, sn, base>>
    [] e.op = "asleep" -> (mon.on => e.t <= mon.due) /\ Keep
    [] e.op = "shared" -> ~e.run /\ e.after = 0 /\ e.most <= 1 /\ Keep     \* a monitor used by several threads, then stopped
    [] OTHER -> FALSE
TNext == l <= TLen /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
