-------------------------------- MODULE MPSim --------------------------------
(***************************************************************************)
(* Simulation of a state-space on dyadic numbers of any size:              *)
(*     x(k+1) = R(A x(k) + B u(k)),  y(k) = C x(k) + D u(k)                *)
(* where R is the identity (p = 0) or the rounding to nearest on p bits of *)
(* each component; x(0) is the given initial state.                        *)
(* Matrices: [r, c, e] with dyadic entries.                                *)
(***************************************************************************)
EXTENDS Big
BMk(r, c, f(_, _)) == [r |-> r, c |-> c, e |-> TLCEval([i \in 1..r |-> [j \in 1..c |-> f(i, j)]])]
BSum(n, f(_)) == FoldLeft(LAMBDA s, k : DAdd(s, f(k)), DZero, [k \in 1..n |-> k])
BMul(a, b) == BMk(a.r, b.c, LAMBDA i, j : BSum(a.c, LAMBDA k : DMul(a.e[i][k], b.e[k][j])))
BAdd(a, b) == BMk(a.r, a.c, LAMBDA i, j : DAdd(a.e[i][j], b.e[i][j]))
BCol(a, k) == BMk(a.r, 1, LAMBDA i, j : a.e[i][k])
BZeros(r, c) == BMk(r, c, LAMBDA i, j : DZero)
BRound(a, p) == IF p = 0 THEN a ELSE BMk(a.r, a.c, LAMBDA i, j : DRound(a.e[i][j], p))
NextState(S, x, u, p) == BRound(BAdd(BMul(S.A, x), BMul(S.B, u)), p)
Output(S, x, u) == BAdd(BMul(S.C, x), BMul(S.D, u))
\* the sequence of outputs
SimB(S, x0, U, p) ==
  FoldLeft(LAMBDA a, k : LET u == BCol(U, k) IN [x |-> NextState(S, a.x, u, p), y |-> Append(a.y, Output(S, a.x, u))],
           [x |-> x0, y |-> << >>], [k \in 1..U.c |-> k]).y
=============================================================================
