------------------------------- MODULE MCMPSim -------------------------------
(***************************************************************************)
(* The simulation step by step, for all small systems of one or two states *)
(* and all small inputs, next to the closed form of the exact outputs.     *)
(***************************************************************************)
EXTENDS MPSim, FiniteSets
CONSTANTS N, Vals, Prec, Len1
VARIABLES S, x0, us, x, ys
vars == <<S, x0, us, x, ys>>
I(v) == DOf(v, 0)
Ms(r, c) == {BMk(r, c, LAMBDA i, j : I(g[<<i, j>>])) : g \in [(1..r) \X (1..c) -> Vals]}
RECURSIVE Val(_)
Val(m) == IF m = << >> THEN 0 ELSE m[1] + Base * Val(Tail(m))
V(d) == d.s * Val(d.m) * Pow2(d.e)
Init == /\ S \in [A : Ms(N, N), B : Ms(N, 1), C : Ms(1, N), D : {BMk(1, 1, LAMBDA i, j : I(1))}]
        /\ x0 \in Ms(N, 1) /\ us = << >> /\ x = x0 /\ ys = << >>
Next == /\ Len(us) < Len1 /\ UNCHANGED <<S, x0>>
        /\ \E v \in Vals : LET u == BMk(1, 1, LAMBDA i, j : I(v)) IN
             us' = Append(us, u) /\ x' = NextState(S, x, u, Prec) /\ ys' = Append(ys, Output(S, x, u))
Spec == Init /\ [][Next]_vars
RECURSIVE Power(_, _)
Power(a, k) == IF k = 0 THEN BMk(a.r, a.r, LAMBDA i, j : I(IF i = j THEN 1 ELSE 0)) ELSE BMul(a, Power(a, k - 1))
\* C A^(k-1) x0 + sum_j C A^(k-1-j) B u_j + D u_k   (samples counted from 1)
Closed(k) ==
  LET t0 == BMul(S.C, BMul(Power(S.A, k - 1), x0))
      td == BMul(S.D, us[k])
      tj(j) == BMul(S.C, BMul(Power(S.A, k - 1 - j), BMul(S.B, us[j])))
  IN V(t0.e[1][1]) + V(td.e[1][1]) + (IF k = 1 THEN 0 ELSE IF k = 2 THEN V(tj(1).e[1][1]) ELSE V(tj(1).e[1][1]) + V(tj(2).e[1][1]))
ExactOK == Prec = 0 => \A k \in 1..Len(ys) : V(ys[k].e[1][1]) = Closed(k)
\* the whole simulation at once
WholeOK == us # << >> => SimB(S, x0, BMk(1, Len(us), LAMBDA i, j : us[j].e[1][1]), Prec) = ys
FitsP(d) == V(DRound(d, Prec)) = V(d)
\* rounded states: they fit, and they are the exact ones as long as those fit
Fit(m) == \A i \in 1..m.r : FitsP(m.e[i][1])
RoundOK == Prec > 0 /\ us # << >> =>
             /\ Fit(x)
             /\ LET xe == FoldLeft(LAMBDA a, k : LET z == NextState(S, a.x, us[k], 0) IN [x |-> z, ok |-> a.ok /\ Fit(z)], [x |-> x0, ok |-> TRUE], [k \in 1..Len(us) |-> k])
                IN xe.ok => \A i \in 1..N : V(xe.x.e[i][1]) = V(x.e[i][1])
\* broken designs: products rounded before the sum; the initial state ignored
BadNext(s, y, u, p) == BRound(BAdd(BRound(BMul(s.A, y), p), BRound(BMul(s.B, u), p)), p)
BadOut(s, y, u) == BAdd(BMul(s.C, NextState(s, y, u, 0)), BMul(s.D, u))
BadSim(s, y0, U, p) ==
  FoldLeft(LAMBDA a, k : LET u == BCol(U, k) IN [x |-> NextState(s, a.x, u, p), y |-> Append(a.y, Output(s, a.x, u))],
           [x |-> BZeros(N, 1), y |-> << >>], [k \in 1..U.c |-> k]).y
V2 == {-1, 2}
V3 == {-3, 0, 1, 2}
V5 == {-3, -1, 0, 1, 3}
=============================================================================
