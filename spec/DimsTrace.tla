------------------------------- MODULE DimsTrace -------------------------------
(***************************************************************************)
(* Trace validation of the constructors: an object exists exactly when its *)
(* matrices are consistent, and then has their sizes.                      *)
(***************************************************************************)
EXTENDS TraceLib, Dims
VARIABLES l
Ev == Trace[l]
\* degenerate systems, without any input or output, may be refused
EmptyNum == Ev.kind \in TFKinds /\ 0 \in {Ev.sh[1][1], Ev.sh[1][2]} /\ Consistent(Ev.kind, <<Ev.sh[2], Ev.sh[2]>>)   \* an empty numerator: null, or refused
Plain == Ev.kind \in TFKinds \/ (\A s \in {"p", "q"} : Sol(Ev.kind, Ev.sh)[s] > 0)
MakeFails ==
  LET ok == Consistent(Ev.kind, Ev.sh) IN
  IF EmptyNum THEN {}
  ELSE IF Ev.got = "ok"
  THEN IF ~ok THEN {"accepted"}
       ELSE Unless(Ev.size = SizeOf(Ev.kind, Ev.sh), "sizes")
            \cup (IF Ev.kind \in TFKinds THEN {} ELSE Unless(Ev.back = Ev.sh, "shapes"))
            \cup Unless(Ev.same = 1, "values")
  ELSE IF ok THEN (IF Plain THEN {"refused"} ELSE {})
  ELSE Unless(Ev.got = "ValueError" \/ (Ev.kind \in TFKinds /\ \E b \in 1..2 : 0 \in {Ev.sh[b][1], Ev.sh[b][2]}), "not a ValueError")
SimFails == IF Ev.got = "ok" THEN Unless(Ev.rows = Ev.q, "accepted") \cup Unless(Ev.y = <<Ev.p, Ev.cols>>, "size of the output")
            ELSE IF Ev.rows = Ev.q THEN {"refused"} ELSE Unless(Ev.got = "ValueError", "not a ValueError")
Fails == CASE Ev.ev = "begin" -> {}
           [] Ev.ev = "make" -> MakeFails
           [] Ev.ev = "sim" -> SimFails
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
