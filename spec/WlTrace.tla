------------------------------- MODULE WlTrace -------------------------------
(* MSBs and word-lengths computed by the code, judged with exact (or bounded) worst-case peak gains *)
EXTENDS Wl, TraceLib
VARIABLES l, sys
Ev == Trace[l]
Slack == -40
\* the gains (lower and upper estimates) of an implicit form
Gains(e) ==
  LET s == TLCEval(Systems(e.z)) IN TLCEval([pz |-> Peak(s.zeta, 160), pe |-> Peak(s.eps, 160), p |-> e.z.S.r])
\* the bounds zeta and the gains of the errors, for the inputs bounded by u
Facts(g, u) ==
  LET pz == g.pz pe == g.pe
      lo == BMul(pz.lo, u) hi == BMul(pz.hi, u) up(x, ex) == IF ex THEN x ELSE DAdd(x, DShift(x, Slack)) dn(x, ex) == IF ex THEN x ELSE DSub(x, DShift(x, Slack)) IN
  TLCEval([g |-> g, ok |-> pz.ok /\ pe.ok /\ \A i \in 1..lo.r : lo.e[i][1].s > 0, p |-> g.p, nv |-> lo.r, exact |-> pz.ex /\ pe.ex,
   zlo |-> [i \in 1..lo.r |-> dn(lo.e[i][1], pz.ex)], zhi |-> [i \in 1..lo.r |-> up(hi.e[i][1], pz.ex)],
   glo |-> [i \in 1..pe.lo.r |-> [j \in 1..pe.lo.c |-> dn(pe.lo.e[i][j], pe.ex)]], ghi |-> [i \in 1..pe.lo.r |-> [j \in 1..pe.lo.c |-> up(pe.hi.e[i][j], pe.ex)]]])
\* m is an MSB for some bound between the estimates
MsbOK(s, i, m) == m >= MSBOf(s.zlo[i]) /\ m <= MSBOf(s.zhi[i])
UwlFails(s, e) ==
  IF e.got # "ok" THEN {"refused"}
  ELSE Unless(\A i \in 1..s.p : DCmp(ErrOut(s.glo[i], s.zlo, e.w), e.eps[i]) < 0, "error bound not met")
       \cup Unless(\E i \in 1..s.p : DCmp(ErrOut(s.ghi[i], s.zhi, e.w - 1), e.eps[i]) >= 0, "not minimal")
\* the share of the budget: E_ij nv 2^-w <= eps_i for all i, and not with w - 1 (both up to the rounding of the logarithms)
Share(s, g, zs, i, j, w) == DMul(g[i][j], DOf(s.nv, MSBOf(zs[j]) - w))
Loose(x) == DAdd(x, DShift(x, -40))
WlFails(s, e) ==
  IF \E j \in 1..s.nv : \A i \in 1..s.p : s.glo[i][j].s = 0 THEN {}    \* a variable that does not reach the outputs: not specified
  ELSE IF e.got # "ok" THEN {"refused"}
  ELSE Unless(Len(e.w) = s.nv /\ \A j \in 1..s.nv : \A i \in 1..s.p : DCmp(Share(s, s.glo, s.zlo, i, j, e.w[j]), Loose(e.eps[i])) <= 0, "share of the error exceeded")
       \cup Unless(Len(e.w) = s.nv /\ \A j \in 1..s.nv : \E i \in 1..s.p : DCmp(Loose(Share(s, s.ghi, s.zhi, i, j, e.w[j] - 1)), e.eps[i]) >= 0, "share not minimal")
       \cup Unless(e.p = s.p /\ e.np = s.nv, "sizes given to the solver")
       \cup Unless(Len(e.wmax) = s.nv /\ \A j \in 1..s.nv : e.wmax[j] = e.o.wmax, "wmax given to the solver")
       \cup Unless(e.feps = e.eps, "eps given to the solver")
       \cup (IF ~s.exact THEN {} ELSE
             Unless(Len(e.E) = s.p /\ \A i \in 1..s.p : Len(e.E[i]) = s.nv /\ \A j \in 1..s.nv : DCmp(e.E[i][j], DShift(s.glo[i][j], MSBOf(s.zlo[j]))) = 0, "E given to the solver")
             \cup Unless(Len(e.wt) = s.nv /\ \A j \in 1..s.nv : LET t == Threshold(s.zlo[j]) IN IF t = << >> THEN e.wt[j] > e.o.wmax ELSE e.wt[j] = t[1], "thresholds given to the solver"))
Fails ==
  CASE Ev.ev = "begin" -> {}
    [] Ev.ev \in {"sif", "u"} -> {}
    [] Ev.ev \in Broken -> {Ev.ev}
    [] ~sys[1].ok -> {}
    [] Ev.ev = "msb" -> (IF Ev.got # "ok" THEN {"refused"} ELSE
                        Unless(Len(Ev.m) = sys[1].nv, "number of MSBs")
                        \cup (IF Len(Ev.m) # sys[1].nv THEN {} ELSE Unless(\A i \in 1..sys[1].nv : Ev.m[i] >= MSBOf(sys[1].zlo[i]), "overflow") \cup Unless(\A i \in 1..sys[1].nv : Ev.m[i] <= MSBOf(sys[1].zhi[i]), "not minimal")))
    [] Ev.ev = "uwl" -> UwlFails(sys[1], Ev)
    [] Ev.ev = "wl" -> WlFails(sys[1], Ev)
    [] OTHER -> {"event"}
TraceInit == l = 1 /\ sys = << >>
TraceNext == l <= Len(Trace) /\ sys' = (IF Ev.ev = "sif" THEN <<Facts(Gains(Ev), Ev.u)>> ELSE IF Ev.ev = "u" THEN <<Facts(sys[1].g, Ev.u)>> ELSE IF Ev.ev = "begin" THEN << >> ELSE sys) /\ Verdict(l, Fails) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, sys>>
=============================================================================
