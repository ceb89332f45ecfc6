----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification.  The trace is the ndjson file  *)
(* written by a conformance driver; l is the next line to be explained.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Trace)
VARIABLE l
Has(r, f) == f \in DOMAIN r
(* one state per consumed line plus the initial state *)
TraceAccepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, TLen>>)
SeqToSet(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
