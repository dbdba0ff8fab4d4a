----------------------------- MODULE DiagramTrace -----------------------------
(* the realizations imported from slx files, judged by the meaning of the diagrams *)
EXTENDS Diagram, TraceLib
VARIABLE l
Ev == Trace[l]
Val(x, signed) == IF x < 0 THEN P - ((0 - x) % P) ELSE x % P
DOf(e) == TLCEval([b |-> [i \in 1..Len(e.b) |-> LET x == e.b[i] IN Blk(x.k, x.par, x.port, Mul(Val(x.num, 0) % P, Inv(PowMod(2, x.sc))), [p \in 1..Len(x.sg) |-> Val(x.sg[p], 0)], x.n)],
            w |-> e.w])
ZOf(m) == RecZ(m.J, m.K, m.L, m.M, m.N, m.PP, m.Q, m.R, m.S)
Numbers(z) == \A b \in BlockNames : IsMat(Block(z, b))
Judge(d, e) ==
  \* (loops of wires through the ports of the subsystems only, that feed nothing, are not judged)
  IF HasLoop(d) THEN Unless(e.got # "ok" \/ Looped(d) \cap (Of(d, "gain") \cup Of(d, "sum")) = {}, "algebraic loop accepted")
  ELSE IF e.got # "ok" THEN {"refused"}
  ELSE LET z == ZOf(e.z) IN
       IF ~DimOK(z) \/ ~Numbers(z) THEN {"sizes"}
       ELSE LET m == Meaning(d) IN
            Unless(q_(z) = NIn(m) /\ p_(z) = NOut(m), "numbers of inputs and outputs")
            \cup Unless(UnitLT(z.J), "J not unit lower triangular")
            \cup (IF UnitLT(z.J) /\ q_(z) = NIn(m) /\ p_(z) = NOut(m) THEN Unless(Equiv(SysOf(z), m), "behaviour") ELSE {})
Fails ==
  CASE Ev.ev = "begin" -> {}
    [] Ev.ev = "sys" -> Judge(DOf(Ev.d), Ev)
    [] Ev.ev = "bad" -> Unless(IF Ev.what = "unsupported" THEN Ev.got # "ok" ELSE Ev.got = "ValueError", "accepted: " \o Ev.what)
    [] Ev.ev \in Broken -> {Ev.ev}
    [] OTHER -> {"event"}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
