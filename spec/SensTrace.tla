------------------------------ MODULE SensTrace ------------------------------
(* sensitivities computed by the code, judged with exact dyadic arithmetic *)
EXTENDS Sens, TraceLib
VARIABLES l, o
Ev == Trace[l]
Tiny(x, scale, b) == DCmp(DAbs(x), DShift(DAdd(DOf(1, 0), scale), b)) <= 0
Close(x, y, b) == Tiny(DSub(x, y), DAbs(y), b)
TrivialC(x) == x.s = 0 \/ IsPow2(DAbs(x))
ZMat(z) == BVCat(BHCat(BMk(z.J.r, z.J.c, LAMBDA i, j : DNeg(z.J.e[i][j])), BHCat(z.M, z.N)), BVCat(BHCat(z.K, BHCat(z.PP, z.Q)), BHCat(z.L, BHCat(z.R, z.S))))
Markers(z) == LET Z == TLCEval(ZMat(z)) IN TLCEval([i \in 1..Z.r |-> [j \in 1..Z.c |-> IF TrivialC(Z.e[i][j]) THEN 0 ELSE 4]])
Sized(m, r, c) == m.r = r /\ m.c = c
\* weights (markers) of the coefficients, in quarters: x times its weight, squared
Wsq(x, k) == DShift(DMul(x, DOf(k * k, 0)), -4)
SumSq(mx, w(_, _)) == BSum(mx.r, LAMBDA i : BSum(mx.c, LAMBDA j : LET x == mx.e[i][j] IN IF w(i, j) = 0 THEN DZero ELSE Wsq(DMul(x, x), w(i, j))))
Finite(m) == \A i \in 1..m.r : \A j \in 1..m.c : m.e[i][j].s # 9
\* steps needed: the matrix is nilpotent, or the poles decay
DtfFails(z, dz, e) ==
  LET nr == z.J.r + z.PP.r + z.S.r nc == z.J.r + z.PP.r + z.S.c n == z.PP.r IN
  IF e.got # "ok" THEN {"refused"}
  ELSE IF ~Sized(e.MX, nr, nc) THEN {"size"}
  ELSE IF ~Finite(e.MX) \/ e.M.s = 9 THEN {"not a number"}
  ELSE LET d == TLCEval(SqDeriv(z, IF e.nil THEN 2 * n + 1 ELSE 60, IF e.nil THEN 0 ELSE 64)) IN
       IF ~d.ok THEN {}
       ELSE Unless(\A i \in 1..nr : \A j \in 1..nc : IF dz[i][j] = 0 THEN e.MX.e[i][j].s = 0 ELSE Close(DMul(e.MX.e[i][j], e.MX.e[i][j]), Wsq(d.sq[i][j], dz[i][j]), -24) /\ e.MX.e[i][j].s >= 0, "H2 norm of a derivative")
            \cup Unless(Close(e.M, SumSq(e.MX, LAMBDA i, j : 4), -24), "measure")
\* the modes: eigenvectors from T and its inverse
AllModes(m) ==
  LET cx == m.ms # << >> /\ m.ms[1][2] # 0 n == m.T.r zz == BZeros(n, 1) tc(k) == BCol(m.T, k) wr(k) == BTp(BRow(m.Ti, k)) IN
  TLCEval((IF cx THEN << [la |-> <<m.ms[1][1], m.ms[1][2]>>, r |-> m.ms[1][3], d |-> 1, v |-> <<tc(1), BNg(tc(2))>>, w |-> <<wr(1), wr(2)>>],
                         [la |-> <<m.ms[1][1], - m.ms[1][2]>>, r |-> m.ms[1][3], d |-> 1, v |-> <<tc(1), tc(2)>>, w |-> <<wr(1), BNg(wr(2))>>] >> ELSE << >>)
          \o [k \in 1..(Len(m.ms) - (IF cx THEN 1 ELSE 0)) |-> LET i == IF cx THEN k + 1 ELSE k IN
                [la |-> <<m.ms[i][1], 0>>, r |-> IF m.ms[i][1] < 0 THEN - m.ms[i][1] ELSE m.ms[i][1], d |-> 0, v |-> <<tc(IF cx THEN k + 2 ELSE k), zz>>, w |-> <<wr(IF cx THEN k + 2 ELSE k), zz>>]])
\* layer y (real and imaginary parts) agrees with mode m, derivative G (times 2^d, and times r for the modulus)
LayerOK(m, G, y, mod) ==
  \A i \in 1..Len(G) : \A j \in 1..Len(G[i]) : LET g == G[i][j] IN
    IF mod THEN y[2].e[i][j].s = 0 /\ Close(DShift(DMul(y[1].e[i][j], DOf(m.r, 0)), m.d), DAdd(DMul(g[1], DOf(m.la[1], 0)), DMul(g[2], DOf(m.la[2], 0))), -28)
    ELSE Close(DShift(y[1].e[i][j], m.d), g[1], -28) /\ Close(DShift(y[2].e[i][j], m.d), g[2], -28)
PoleFails(z, dz, m, e, mod) ==
  LET nr == z.J.r + z.PP.r + z.S.r nc == z.J.r + z.PP.r + z.S.c n == z.PP.r IN
  IF m.ms = << >> THEN {}       \* multiple poles: not specified
  ELSE IF e.got # "ok" THEN {"refused"}
  ELSE IF ~(Sized(e.MX, nr, nc) /\ Len(e.MXk) = n /\ \A k \in 1..n : Sized(e.MXk[k][1], nr, nc)) THEN {"size"}
  ELSE IF ~(Finite(e.MX) /\ e.M.s # 9 /\ \A k \in 1..n : Finite(e.MXk[k][1]) /\ Finite(e.MXk[k][2])) THEN {"not a number"}
  ELSE LET modes == AllModes(m) G == TLCEval([k \in 1..n |-> PoleDeriv(z, modes[k])])
           ok == TLCEval([k \in 1..n |-> {y \in 1..n : LayerOK(modes[k], G[k], e.MXk[y], mod)}]) IN
       Unless(\E s \in Permutations(1..n) : \A k \in 1..n : s[k] \in ok[k], "derivatives of the poles")
       \cup Unless(\A i \in 1..nr : \A j \in 1..nc : e.MX.e[i][j].s >= 0 /\
                     Close(DMul(e.MX.e[i][j], e.MX.e[i][j]), BSum(n, LAMBDA k : DAdd(DMul(e.MXk[k][1].e[i][j], e.MXk[k][1].e[i][j]), DMul(e.MXk[k][2].e[i][j], e.MXk[k][2].e[i][j]))), -28), "matrix")
       \cup Unless(Close(e.M, SumSq(e.MX, LAMBDA i, j : dz[i][j]), -28), "measure")
Fails ==
  CASE Ev.ev = "begin" -> {}
    [] Ev.ev = "sif" -> {}
    [] Ev.ev \in Broken -> {Ev.ev}
    [] Ev.ev \in {"set", "setA", "setdZ", "read"} -> IF Ev.got = "ok" THEN {} ELSE {"refused"}
    [] Ev.ev = "dtf" -> DtfFails(o.z, o.dz, Ev)
    [] Ev.ev = "pole" -> PoleFails(o.z, o.dz, o.m, Ev, TRUE)
    [] Ev.ev = "polec" -> PoleFails(o.z, o.dz, o.m, Ev, FALSE)
    [] OTHER -> {"event"}
Obj(z, m) == [z |-> z, m |-> m, dz |-> Markers(z)]
Step == CASE Ev.ev = "sif" -> Obj(Ev.z, Ev.m)
          [] Ev.ev = "set" -> Obj([o.z EXCEPT ![Ev.b] = Ev.v], o.m)
          [] Ev.ev = "setA" -> Obj([o.z EXCEPT !.K = Ev.K, !.PP = Ev.PP], Ev.m)
          [] Ev.ev = "setdZ" -> [o EXCEPT !.dz = Ev.v]
          [] Ev.ev = "begin" -> << >>
          [] OTHER -> o
TraceInit == l = 1 /\ o = << >>
TraceNext == l <= Len(Trace) /\ o' = Step /\ Verdict(l, Fails) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, o>>
=============================================================================
