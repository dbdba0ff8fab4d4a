----------------------------- MODULE WorstTrace -----------------------------
(* worst-case inputs generated by the code, judged with exact dyadic numbers *)
EXTENDS Worst, TraceLib
VARIABLES l, z
Ev == Trace[l]
Sys(zz) == LET s == TLCEval(Systems(zz).zeta) n == zz.J.r + zz.PP.r IN
  [A |-> s.A, B |-> s.B, C |-> BMk(1, s.C.c, LAMBDA i, j : s.C.e[n + i][j]), D |-> BMk(1, s.D.c, LAMBDA i, j : s.D.e[n + i][j])]
Lost(best, v, bits) == DCmp(DAdd(v, DShift(best, bits)), best) < 0
GenFails(e) ==
  IF e.got # "ok" THEN {"refused"}
  ELSE IF e.U.r # z.S.c \/ e.U.c # e.N THEN {"size"}
  ELSE LET S == TLCEval(Sys(z)) best == TLCEval(WorstOf(S, e.u, e.N)) IN
       Unless(Admissible(e.U, e.u), "not admissible")
       \cup Unless(~Lost(best, LastOf(S, e.U), -40), "worst case not reached")
       \cup Unless(e.sim = << >> \/ ~Lost(best, e.sim[1], -30), "worst case not reached by the simulation")
Fails ==
  CASE Ev.ev = "begin" -> {}
    [] Ev.ev = "sif" -> {}
    [] Ev.ev \in Broken -> {Ev.ev}
    [] Ev.ev = "set" -> IF Ev.got = "ok" THEN {} ELSE {"refused"}
    [] Ev.ev = "gen" -> GenFails(Ev)
    [] Ev.ev = "bad" -> IF Ev.got = "ValueError" THEN {} ELSE {"wrong size accepted"}
    [] OTHER -> {"event"}
TraceInit == l = 1 /\ z = << >>
TraceNext == l <= Len(Trace) /\ z' = (IF Ev.ev = "sif" THEN Ev.z ELSE IF Ev.ev = "begin" THEN << >> ELSE IF Ev.ev = "set" THEN [z EXCEPT ![Ev.b] = Ev.v] ELSE z) /\ Verdict(l, Fails) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, z>>
=============================================================================
