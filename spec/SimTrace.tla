------------------------------ MODULE SimTrace ------------------------------
(***************************************************************************)
(* Trace validation of dSSmp.simulate.  Exact simulations are compared in  *)
(* GF(P); the rounded ones are computed on integers of any size (MPSim)    *)
(* and the result compared modulo P.                                       *)
(***************************************************************************)
EXTENDS TraceLib, Tok, MPSim
VARIABLES l, sys, mem
Ev == Trace[l]
\* a token as a dyadic number
DTok(t) == DAdd(DOf(t[1], t[2]), DOf(t[3], t[4]))
DMatOf(m) == BMk(m.r, m.c, LAMBDA i, j : DTok(m.e[i][j]))
Residue(d) == LET v == Mul(NMod(d.m, P), TPow2(d.e)) IN IF d.s < 0 THEN Neg1(v) ELSE v
n == sys.A.r
q == sys.B.c
Acc(o) == /\ o.fu \in {"np", "mp"} /\ o.u.r = q
          /\ (o.fx = "none" \/ (o.x0.r = n /\ o.x0.c = 1))
X0(o) == IF o.fx = "none" THEN Mk(n, 1, LAMBDA i, j : Tok0) ELSE o.x0
Want(o) ==
  IF o.exact = 1
  THEN SimSSFrom(SS(TMat(sys.A), TMat(sys.B), TMat(sys.C), TMat(sys.D)), TMat(X0(o)), TMat(o.u))
  ELSE LET S == [A |-> DMatOf(sys.A), B |-> DMatOf(sys.B), C |-> DMatOf(sys.C), D |-> DMatOf(sys.D)]
           ys == SimB(S, DMatOf(X0(o)), DMatOf(o.u), 53)
       IN Mk(sys.C.r, o.u.c, LAMBDA i, j : Residue(ys[j].e[i][1]))
CallFails ==
  LET o == Ev.o IN
  (IF Ev.got = "raise" THEN Unless(~Acc(o), "refused")
   ELSE IF ~Acc(o) THEN {"accepted"}
   ELSE LET w == Want(o) IN
        IF Ev.y.r # w.r \/ Ev.y.c # w.c THEN {"sizes"} ELSE Unless(Ev.f = "mp", "format") \cup Unless(Ev.y = w, IF o.exact = 1 THEN "exact output" ELSE "rounded output"))
  \cup Unless(Ev.sys = mem, "system modified")
  \cup Unless(Ev.args[1] = Ev.args[2], "argument modified")
Fails == CASE Ev.ev = "sim" -> CallFails
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
Step == CASE Ev.ev = "new" -> sys' = Ev.sys /\ mem' = Ev.fp
          [] OTHER -> UNCHANGED <<sys, mem>>
NoSys == LET z == [r |-> 0, c |-> 0, e |-> << >>] IN [A |-> z, B |-> z, C |-> z, D |-> z]
TraceInit == l = 1 /\ sys = NoSys /\ mem = 0
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, sys, mem>>
=============================================================================
