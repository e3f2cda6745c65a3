----------------------------- MODULE TraceLib -----------------------------
(* A recorded trace (ndjson, one event per line) and its acceptance: every   *)
(* event was consumed by a step of the specification.                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Accepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
     ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
