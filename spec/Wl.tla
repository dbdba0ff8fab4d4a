--------------------------------- MODULE Wl ---------------------------------
(***************************************************************************)
(* Word-lengths of an implicit form, on dyadic numbers of any size.        *)
(*                                                                         *)
(* zeta  a variable is at most zeta in absolute value, for all the inputs  *)
(*       bounded by u: zeta = <<Hzeta>> u  (worst-case peak gain)          *)
(* MSB   smallest m such that zeta <= 2^m                                  *)
(* w~    with w bits the largest number is 2^m - 2^(m-w+1); it is enough   *)
(*       from w = w~ on (never when zeta = 2^m); below, the MSB is m + 1   *)
(* error rounding variable j to the nearest of its grid makes an error of  *)
(*       at most 2^(m_j + d_j - w) (d_j = 1 below w~_j); the error of an   *)
(*       output is at most sum_j <<Heps>>_ij 2^(m_j + d_j - w_j)           *)
(***************************************************************************)
EXTENDS MPSim
BEye2(n) == BMk(n, n, LAMBDA i, j : IF i = j THEN DOf(1, 0) ELSE DZero)
BVCat(a, b) == BMk(a.r + b.r, a.c, LAMBDA i, j : IF i <= a.r THEN a.e[i][j] ELSE b.e[i - a.r][j])
BHCat(a, b) == BMk(a.r, a.c + b.c, LAMBDA i, j : IF j <= a.c THEN a.e[i][j] ELSE b.e[i][j - a.c])
BAbs(a) == BMk(a.r, a.c, LAMBDA i, j : DAbs(a.e[i][j]))
DMax(x, y) == IF DCmp(x, y) >= 0 THEN x ELSE y
BMax(n, f(_)) == FoldLeft(LAMBDA s, k : DMax(s, f(k)), DZero, [k \in 1..n |-> k])
BIsZero(a) == \A i \in 1..a.r : \A j \in 1..a.c : a.e[i][j].s = 0
DShift(x, k) == IF x.s = 0 THEN x ELSE [x EXCEPT !.e = @ + k]
\* logarithms of a positive number
FloorLog(x) == NBits(x.m) + x.e - 1
IsPow2(x) == DCmp(x, DOf(1, FloorLog(x))) = 0
CeilLog(x) == IF IsPow2(x) THEN FloorLog(x) ELSE FloorLog(x) + 1
MSBOf(zeta) == CeilLog(zeta)
\* << >> : never
Threshold(zeta) == LET m == MSBOf(zeta) IN IF IsPow2(zeta) THEN << >> ELSE <<1 + m - FloorLog(DSub(DOf(1, m), zeta))>>
Below(w, t) == t = << >> \/ w < t[1]
\* exponent of the largest rounding error with w bits, plus w
Reach(zeta, w) == MSBOf(zeta) + (IF Below(w, Threshold(zeta)) THEN 1 ELSE 0)
\* error of one output: gains g, bounds zs of the variables, w bits each
ErrOut(g, zs, w) == BSum(Len(g), LAMBDA j : DShift(g[j], Reach(zs[j], w) - w))

(***************************************************************************)
(* The systems of an implicit form.                                        *)
(***************************************************************************)
\* inverse of a unit lower triangular matrix, column by column
BFwd(J, i) == FoldLeft(LAMBDA t, k : Append(t, DSub(IF k = i THEN DOf(1, 0) ELSE DZero, BSum(k - 1, LAMBDA j : DMul(J.e[k][j], t[j])))), << >>, [k \in 1..J.r |-> k])
BInvULT(J) == LET cols == TLCEval([i \in 1..J.r |-> BFwd(J, i)]) IN BMk(J.r, J.r, LAMBDA k, i : cols[i][k])
BULT(J) == \A i, j \in 1..J.r : (i = j => J.e[i][j] = DOf(1, 0)) /\ (j > i => J.e[i][j].s = 0)
Systems(z) ==
  LET iv == BInvULT(z.J) l == z.J.r n == z.PP.r p == z.S.r q == z.S.c
      ivM == BMul(iv, z.M) ivN == BMul(iv, z.N)
      A == BAdd(BMul(z.K, ivM), z.PP) B == BAdd(BMul(z.K, ivN), z.Q) C == BAdd(BMul(z.L, ivM), z.R) D == BAdd(BMul(z.L, ivN), z.S) IN
  [zeta |-> [A |-> A, B |-> B, C |-> BVCat(ivM, BVCat(BEye2(n), C)), D |-> BVCat(ivN, BVCat(BZeros(n, q), D))],
   eps  |-> [A |-> A, B |-> BHCat(BMul(z.K, iv), BHCat(BEye2(n), BZeros(n, p))), C |-> C, D |-> BHCat(BMul(z.L, iv), BHCat(BZeros(p, n), BEye2(p)))]]
(***************************************************************************)
(* Worst-case peak gain of a system: between lo and hi.  Partial sums,     *)
(* until the powers vanish (exact) or until the bound of the tail from     *)
(* the norm of A is negligible; ok = FALSE if this norm is not below 1.    *)
(***************************************************************************)
Peak(S, N) ==
  LET rho == BMax(S.A.r, LAMBDA i : BSum(S.A.c, LAMBDA j : DAbs(S.A.e[i][j])))
      gap == DSub(DOf(1, 0), rho)
      cn == [i \in 1..S.C.r |-> BSum(S.C.c, LAMBDA j : DAbs(S.C.e[i][j]))]
      biggest(X) == BMax(X.r, LAMBDA i : BMax(X.c, LAMBDA j : DAbs(X.e[i][j])))
      \* sum of the |C A^k X| is at most |C| |X| / (1 - rho)
      tail(X) == LET b == biggest(X) IN [i \in 1..S.C.r |-> DShift(DMul(cn[i], b), - FloorLog(gap))]
      go == FoldLeft(LAMBDA s, k : IF s.done THEN s
                     ELSE LET acc == BRound(BAdd(s.acc, BAbs(BMul(S.C, s.X))), 100) X == BRound(BMul(S.A, s.X), 100) IN
                          [acc |-> acc, X |-> X, done |-> BIsZero(X) \/ (k % 4 = 0 /\ gap.s > 0 /\ FloorLog(DAdd(biggest(X), DOf(1, -60))) < -56)],
                     [acc |-> BAbs(S.D), X |-> S.B, done |-> BIsZero(S.B)], [k \in 1..N |-> k])
  IN [lo |-> go.acc, ex |-> BIsZero(go.X), ok |-> BIsZero(go.X) \/ gap.s > 0,
      hi |-> IF BIsZero(go.X) \/ gap.s <= 0 THEN go.acc ELSE LET t == TLCEval(tail(go.X)) IN BMk(go.acc.r, go.acc.c, LAMBDA i, j : DAdd(go.acc.e[i][j], t[i]))]
Times(W, u) == BMul(W, u)
=============================================================================
