------------------------------- MODULE TraceLib -------------------------------
(* Reading a recorded trace of the implementation, and accepting it.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLE l     \* position of the next event
E == Trace[l]
IsOp(name) == l <= Len(Trace) /\ E.op = name /\ E.err = "" /\ l' = l + 1

(* Evaluated when the search is over: every event must have been explained. *)
Accepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN PrintT(<<"TRACE_ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"TRACE_REJECTED", d>>)
=============================================================================
