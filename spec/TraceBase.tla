------------------------------ MODULE TraceBase ------------------------------
(* The recorded trace and the acceptance condition, shared by all trace specifications. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Judge == IOEnv.PROP    \* the property this run decides
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
