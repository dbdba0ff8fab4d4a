-------------------------------- MODULE MCMsb --------------------------------
(***************************************************************************)
(* Every implicit form with one intermediate variable, one state (nil-     *)
(* potent), one input and one output, coefficients -1..1 (P: what cancels  *)
(* the loop), run on every input sequence bounded by 1, and with every     *)
(* perturbation bounded by 1 of its variables: no variable ever exceeds    *)
(* its bound, no output error the sum of the gains, and both are reached.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Len0
VARIABLES c, k, x, v
C3 == -1..1
Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Coefs == [K : C3, L : C3, M : C3, N : C3, Q : C3, R : C3, S : C3]
PP(z) == - z.K * z.M
\* t = M x + N u ; x' = K t + P x + Q u = (K N + Q) u ; y = L t + R x + S u
Zeta(z) == [t |-> Abs(z.M * (z.K * z.N + z.Q)) + Abs(z.N), x |-> Abs(z.K * z.N + z.Q),
            y |-> Abs((z.L * z.M + z.R) * (z.K * z.N + z.Q)) + Abs(z.L * z.N + z.S)]
\* perturbations of t, x', y
Heps(z) == Abs((z.L * z.M + z.R) * z.K) + Abs(z.L) + Abs(z.L * z.M + z.R) + 1
Vars(z, xx, u, et, ex, ey) ==
  LET t == z.M * xx + z.N * u + et IN [t |-> t, x |-> z.K * t + PP(z) * xx + z.Q * u + ex, y |-> z.L * t + z.R * xx + z.S * u + ey]
Init == /\ c \in Coefs /\ k = 0 /\ x = [u |-> 0, e |-> 0]
        /\ v = [t |-> 0, x |-> 0, y |-> 0, e |-> 0]
Next ==
  /\ k < Len0 /\ k' = k + 1 /\ c' = c
  \* (the form is linear: inputs and perturbations are run one at a time)
  /\ \E r \in ({<<u, 0, 0, 0>> : u \in C3} \cup {<<0, et, ex, ey>> : et \in C3, ex \in C3, ey \in C3}) : LET u == r[1] et == r[2] ex == r[3] ey == r[4] IN
     LET a == Vars(c, x.u, u, 0, 0, 0) b == Vars(c, x.e, 0, et, ex, ey) IN
     v' = [t |-> a.t, x |-> a.x, y |-> a.y, e |-> b.y] /\ x' = [u |-> a.x, e |-> b.x]
Spec == Init /\ [][Next]_<<c, k, x, v>>
ZetaOf(z) == Zeta(z)
HepsOf(z) == Heps(z)
Bounded == Abs(v.t) <= ZetaOf(c).t /\ Abs(v.x) <= ZetaOf(c).x /\ Abs(v.y) <= ZetaOf(c).y /\ Abs(v.e) <= HepsOf(c)
\* reached by two inputs (perturbations) of the right signs
Sg(a) == IF a < 0 THEN -1 ELSE 1
Reached == k = 0 =>
  LET z == c x1 == z.K * z.N + z.Q
      a(g0, g1) == Vars(z, x1 * Sg(g0), Sg(g1), 0, 0, 0)
      e1 == Vars(z, 0, 0, Sg((z.L * z.M + z.R) * z.K), Sg(z.L * z.M + z.R), 0)
      e2 == Vars(z, e1.x, 0, Sg(z.L), 0, 1) IN
  /\ Abs(a(z.M * x1, z.N).t) = ZetaOf(z).t
  /\ Abs(a((z.L * z.M + z.R) * x1, z.L * z.N + z.S).y) = ZetaOf(z).y
  /\ Abs(e2.y) = HepsOf(z)
\* wrong bounds
NoState(z) == [Zeta(z) EXCEPT !.t = Abs(z.N)]
HuLike(z) == [Zeta(z) EXCEPT !.y = Abs((z.L * z.M + z.R) * (z.K * z.N + z.Q) + z.L * z.N + z.S)]
NoOutput(z) == Heps(z) - 1
=============================================================================
