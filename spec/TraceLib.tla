------------------------------- MODULE TraceLib -------------------------------
(***************************************************************************)
(* Shared part of the trace specifications: the recorded events, and the   *)
(* verdict of an event as the set of the names of its violated clauses.    *)
(***************************************************************************)
EXTENDS GF, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* what happened to the code under test instead of an answer
Broken == {"raise", "timeout", "crash"}
Verdict(l, fails) == IF fails = {} THEN TRUE ELSE PrintT("FAIL|" \o ToString(l) \o "|" \o ToString(fails))
Unless(ok, name) == IF ok THEN {} ELSE {name}
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
