------------------------------ MODULE PrecTrace ------------------------------
(***************************************************************************)
(* Trace validation of the working precision: the user's settings and the  *)
(* calls, each reduced to its entry and its end (return or exception), are *)
(* steps of Prec in which only UserSet changes the precision seen from     *)
(* outside.                                                                *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES l, prec
Ev == Trace[l]
Fails == CASE Ev.ev = "call" -> Unless(Ev.before = prec, "precision changed between calls") \cup Unless(Ev.after = prec, "precision changed by " \o Ev.got)
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
Step == prec' = CASE Ev.ev = "prec" -> Ev.v [] Ev.ev = "call" -> Ev.after [] OTHER -> prec
TraceInit == l = 1 /\ prec = 0
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, prec>>
=============================================================================
