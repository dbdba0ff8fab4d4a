----------------------------- MODULE StructTrace -----------------------------
(* the realizations built by the code, judged by the specification of the structures *)
EXTENDS Structures, TraceLib
VARIABLE l
Ev == Trace[l]
Seq2F(s, sc) == LET iv == Inv(PowMod(2, sc)) IN TLCEval([k \in 1..Len(s) |-> Mul(s[k] % P, iv)])
Mat2F(m, sc) == LET iv == Inv(PowMod(2, sc)) IN Mk(m.r, m.c, LAMBDA i, j : Mul(m.e[i][j] % P, iv))
Filt(e) == IF e.kind = "tf" THEN [kind |-> "tf", h |-> TF(Seq2F(e.num, e.sn), Seq2F(e.den, e.sd))]
           ELSE [kind |-> "ss", s |-> SS(Mat2F(e.A, e.sc), Mat2F(e.B, e.sc), Mat2F(e.C, e.sc), Mat2F(e.D, e.sc))]
OnGrid(z) == \A b \in BlockNames : IsMat(Block(z, b))
ZOf(m) == Z9(m.J, m.K, m.L, m.M, m.N, m.PP, m.Q, m.R, m.S)
\* the impulse response of the realization, sample after sample (executed from its matrices)
ImpOK(e, f) == LET S == FiltSS(f) h == Markov(S, Len(e.imp)) IN
  /\ Len(e.imp) >= Order(S) + e.order + 1
  /\ \A k \in 1..Len(h) : MEq(e.imp[k], MScale(e.lead % P, h[k]))
Fails ==
  CASE Ev.ev = "begin" -> {}
    [] Ev.ev = "real" -> LET z == ZOf(Ev.z) f == Filt(Ev.f) IN
         Unless(DimOK(z), "sizes")
         \cup (IF ~DimOK(z) THEN {} ELSE
              Unless(Ev.unit, "J not unit lower triangular")
              \cup Unless(ImpOK(Ev, f), "impulse response")
              \cup (IF Ev.cmpz /\ OnGrid(z) THEN Unless(Executable(z), "J") \cup (IF Invertible(z.J) THEN Unless(Realizes(z, f), "behaviour") ELSE {"J singular"}) ELSE {}))
    [] Ev.ev = "reject" -> Unless(Ev.got = "ValueError", "not rejected")
    [] Ev.ev \in Broken -> {Ev.ev}
    [] OTHER -> {}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
