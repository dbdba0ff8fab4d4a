--------------------------------- MODULE Ana ---------------------------------
(***************************************************************************)
(* Analysis values of a state-space given by the exact values of its       *)
(* floating-point matrices (dyadic numbers): defining equations of the     *)
(* Gramians, the H2 norm and the DC gain, evaluated exactly and accepted   *)
(* within a relative tolerance 2^-TolBits (they are computed in floating   *)
(* point by the code).                                                     *)
(***************************************************************************)
EXTENDS MPSim
CONSTANT TolBits
BTr(a) == BMk(a.c, a.r, LAMBDA i, j : a.e[j][i])
BNeg(a) == BMk(a.r, a.c, LAMBDA i, j : DNeg(a.e[i][j]))
BSub(a, b) == BAdd(a, BNeg(b))
BEye(n) == BMk(n, n, LAMBDA i, j : IF i = j THEN DOf(1, 0) ELSE DZero)
BTrace(a) == BSum(a.r, LAMBDA i : a.e[i][i])
BNorm(a) == BSum(a.r, LAMBDA i : BSum(a.c, LAMBDA j : DAbs(a.e[i][j])))
BSame(a, b) == a.r = b.r /\ a.c = b.c
\* |d| <= 2^-TolBits * (1 + scale)
Tiny(d, scale) == DCmp(DAbs(d), LET x == DAdd(DOf(1, 0), scale) IN [x EXCEPT !.e = x.e - TolBits]) <= 0
MTiny(m, scale) == \A i \in 1..m.r : \A j \in 1..m.c : Tiny(m.e[i][j], scale)
Near(a, b) == BSame(a, b) /\ MTiny(BSub(a, b), BNorm(a))
DNear(x, y) == Tiny(DSub(x, y), DAbs(x))
\* W = A W A' + Q
Lyap(A, Q, W) == BSame(W, A) /\ MTiny(BSub(BAdd(BMul(BMul(A, W), BTr(A)), Q), W), DAdd(BNorm(W), BNorm(Q)))
IsWc(S, W) == Lyap(S.A, BMul(S.B, BTr(S.B)), W)
IsWo(S, W) == Lyap(BTr(S.A), BMul(BTr(S.C), S.C), W)
\* H2^2 = tr(C Wc C' + D D')
H2Sq(S, Wc) == BTrace(BAdd(BMul(BMul(S.C, Wc), BTr(S.C)), BMul(S.D, BTr(S.D))))
\* (I - A) X = B
IsX(S, X) == BSame(X, S.B) /\ MTiny(BSub(BSub(X, BMul(S.A, X)), S.B), DAdd(BNorm(X), BNorm(S.B)))
DC(S, X) == BAdd(BMul(S.C, X), S.D)
\* S2 is S1 after the change of state x -> T^-1 x
IsSimil(S1, T, S2) ==
  LET sc == DAdd(DAdd(BNorm(S1.A), BNorm(S1.B)), BNorm(S1.C)) IN
  /\ BSame(S1.A, S2.A) /\ BSame(S1.B, S2.B) /\ BSame(S1.C, S2.C)
  /\ MTiny(BSub(BMul(T, S2.A), BMul(S1.A, T)), DAdd(sc, BNorm(S2.A)))
  /\ MTiny(BSub(BMul(T, S2.B), S1.B), DAdd(sc, BNorm(S2.B)))
  /\ MTiny(BSub(S2.C, BMul(S1.C, T)), sc)
  /\ S1.D = S2.D
\* the first k Markov parameters coincide
RECURSIVE NearIO(_, _, _)
NearIO(S1, S2, k) ==
  BSame(S1.D, S2.D) /\ MTiny(BSub(S1.D, S2.D), BNorm(S1.D))
  /\ (k = 0 \/ LET go[i \in 0..k] == IF i = 0 THEN <<S1.B, S2.B, TRUE>>
                                     ELSE LET a == go[i - 1][1] b == go[i - 1][2] x == BMul(S1.C, a) y == BMul(S2.C, b)
                                          IN <<BMul(S1.A, a), BMul(S2.A, b), go[i - 1][3] /\ MTiny(BSub(x, y), BNorm(x))>>
               IN go[k][3])
=============================================================================
