--------------------------------- MODULE Sens ---------------------------------
(***************************************************************************)
(* Sensitivities of an implicit form to its coefficients                   *)
(*      J t = M x + N u ;  x' = K t + P x + Q u ;  y = L t + R x + S u     *)
(* Z = [-J M N; K P Q; L R S].  Moving coefficient (i, j) of Z by eps adds *)
(* eps v_j to the right-hand side of equation i, with v = (t, x, u):       *)
(*   the derivative of an output is the output of the perturbation system  *)
(*   fed (equation i) with the variable v_j;                               *)
(*   the derivative of a pole is w' g_i v_j / w' v with w, v its left and  *)
(*   right eigenvectors, g_i the effect of equation i on the next state,   *)
(*   v_j the variable in the mode v (no input).                            *)
(***************************************************************************)
EXTENDS Wl
BTp(a) == BMk(a.c, a.r, LAMBDA i, j : a.e[j][i])
BNg(a) == BMk(a.r, a.c, LAMBDA i, j : DNeg(a.e[i][j]))
BRow(a, k) == BMk(1, a.c, LAMBDA i, j : a.e[k][j])
\* variables v = (t, x, u) from the states and the inputs
Vars(z) == LET iv == BInvULT(z.J) l == z.J.r n == z.PP.r q == z.S.c IN
  [X |-> BVCat(BMul(iv, z.M), BVCat(BEye2(n), BZeros(q, n))), U |-> BVCat(BMul(iv, z.N), BVCat(BZeros(n, q), BEye2(q)))]
Small(X, b) == BIsZero(X) \/ FloorLog(BMax(X.r, LAMBDA i : BMax(X.c, LAMBDA j : DAbs(X.e[i][j])))) < b
SqSum(a) == BSum(a.r, LAMBDA i : BSum(a.c, LAMBDA j : DMul(a.e[i][j], a.e[i][j])))
(***************************************************************************)
(* Squared H2 norm of the derivative with respect to every coefficient:    *)
(* sum over the inputs and the time of |dy|^2 (at most N steps; ok if the  *)
(* remaining states are negligible).                                       *)
(***************************************************************************)
SqDeriv(z, N, prec) ==
  LET s == TLCEval(Systems(z)) V == TLCEval(Vars(z)) l == z.J.r n == z.PP.r p == z.S.r q == z.S.c
      H == s.eps A == H.A
      \* impulse on input m: states and variables at each time
      xs(m) == FoldLeft(LAMBDA h, k : Append(h, BRound(BMul(A, h[k]), prec)), <<BCol(s.zeta.B, m)>>, [k \in 1..N |-> k])
      vs(m) == LET x == TLCEval(xs(m)) IN <<BCol(V.U, m)>> \o [k \in 1..N |-> BMul(V.X, x[k])]
      one(i, v, j) == FoldLeft(LAMBDA a, k : LET e == v[k].e[j][1]
                                  dy == BAdd(BMul(H.C, a.x), BMk(p, 1, LAMBDA r, c : DMul(H.D.e[r][i], e)))
                                  dx == BAdd(BMul(A, a.x), BMk(n, 1, LAMBDA r, c : DMul(H.B.e[r][i], e))) IN
                                  [x |-> BRound(dx, prec), s |-> IF prec = 0 THEN DAdd(a.s, SqSum(dy)) ELSE DRound(DAdd(a.s, SqSum(dy)), prec)],
                         [x |-> BZeros(n, 1), s |-> DZero], [k \in 1..(N + 1) |-> k])
      all == TLCEval([m \in 1..q |-> vs(m)])
      runs == TLCEval([i \in 1..(l + n + p) |-> [j \in 1..(l + n + q) |-> [m \in 1..q |-> one(i, all[m], j)]]])
  IN [sq |-> [i \in 1..(l + n + p) |-> [j \in 1..(l + n + q) |-> BSum(q, LAMBDA m : runs[i][j][m].s)]],
      ok |-> \A m \in 1..q : Small(all[m][N + 1], -40) /\ \A i \in 1..(l + n + p) : \A j \in 1..(l + n + q) : Small(runs[i][j][m].x, -40)]
(***************************************************************************)
(* Derivatives of the poles.  A mode: pole la = (re, im), right and left   *)
(* eigenvectors v, w (columns: real and imaginary parts), and w' v = d.    *)
(* Complex products: (a, b) (c, d) = (ac - bd, ad + bc).                   *)
(***************************************************************************)
CMulV(a, b) == <<DSub(DMul(a[1], b[1]), DMul(a[2], b[2])), DAdd(DMul(a[1], b[2]), DMul(a[2], b[1]))>>
PoleDeriv(z, mode) ==
  LET s == TLCEval(Systems(z)) V == TLCEval(Vars(z)) G == BTp(s.eps.B)
      w == TLCEval(<<BMul(G, mode.w[1]), BMul(G, mode.w[2])>>) v == TLCEval(<<BMul(V.X, mode.v[1]), BMul(V.X, mode.v[2])>>) IN
  [i \in 1..G.r |-> [j \in 1..V.X.r |-> TLCEval(CMulV(<<w[1].e[i][1], w[2].e[i][1]>>, <<v[1].e[j][1], v[2].e[j][1]>>))]]
=============================================================================
