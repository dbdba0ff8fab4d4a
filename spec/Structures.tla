------------------------------ MODULE Structures ------------------------------
(***************************************************************************)
(* The structures: from a filter (a transfer function H, normalised, or a  *)
(* state-space) and options, the SIF that realizes it.  Written from the   *)
(* definitions in the literature cited by the code (direct forms; rho      *)
(* direct form II of Li, Hilaire; Li-Gevers-Sun and Li-Chu-Wu factorised   *)
(* state-spaces), over an arbitrary field.  MCStructures checks that each  *)
(* one realizes its filter with a unit lower triangular J; the traces of   *)
(* the real builders are judged by the same Realizes predicate.            *)
(***************************************************************************)
EXTENDS SIF

\* z realizes the filter f = [kind |-> "tf", h |-> TF] or [kind |-> "ss", s |-> SS]
FiltSS(f) == IF f.kind = "tf" THEN TFtoSS(f.h) ELSE f.s
Realizes(z, f) == Equiv(SysOf(z), FiltSS(f))
Executable(z) == UnitLT(z.J)

Z9(J, K, L, M, N, X, Q, R, S) == [J |-> J, K |-> K, L |-> L, M |-> M, N |-> N, PP |-> X, Q |-> Q, R |-> R, S |-> S]
\* exchange of inputs and outputs (same behaviour for a SISO system)
Dual(z) == Z9(Tr(z.J), Tr(z.M), Tr(z.N), Tr(z.K), Tr(z.L), Tr(z.PP), Tr(z.R), Tr(z.Q), Tr(z.S))
\* reversal of the order of the intermediate variables / of the states
RevM(a, rows, cols) == Mk(a.r, a.c, LAMBDA i, j : a.e[IF rows THEN a.r + 1 - i ELSE i][IF cols THEN a.c + 1 - j ELSE j])
RevT(z) == [z EXCEPT !.J = RevM(@, TRUE, TRUE), !.K = RevM(@, FALSE, TRUE), !.L = RevM(@, FALSE, TRUE),
                     !.M = RevM(@, TRUE, FALSE), !.N = RevM(@, TRUE, FALSE)]
RevX(z) == [z EXCEPT !.PP = RevM(@, TRUE, TRUE), !.K = RevM(@, TRUE, FALSE), !.Q = RevM(@, TRUE, FALSE),
                     !.M = RevM(@, FALSE, TRUE), !.R = RevM(@, FALSE, TRUE)]

\* H normalised, of order n >= 1; b(i), a(i): coefficients of z^-i
NumAt(H, i) == PAt(H.num, i + 1)
DenAt(H, i) == PAt(H.den, i + 1)

\* Direct Form I: states u(k-1)..u(k-n), y(k-1)..y(k-n)
DFI(H0, nbSum, tr) ==
  LET H == TFNorm(H0) n == TFDeg(H)
      X == Mk(2 * n, 2 * n, LAMBDA i, j : IF i = j + 1 /\ i # n + 1 THEN 1 ELSE 0)
      Q == Mk(2 * n, 1, LAMBDA i, j : IF i = 1 THEN 1 ELSE 0)
      R == Zeros(1, 2 * n)
      one == Z9(Eye(1), Mk(2 * n, 1, LAMBDA i, j : IF i = n + 1 THEN 1 ELSE 0), Eye(1),
                Mk(1, 2 * n, LAMBDA i, j : IF j <= n THEN NumAt(H, j) ELSE Neg1(DenAt(H, j - n))),
                Scalar(NumAt(H, 0)), X, Q, R, Scalar(0))
      two == Z9(Mk(2, 2, LAMBDA i, j : IF i = j THEN 1 ELSE IF i = 2 THEN Neg1(1) ELSE 0),
                Mk(2 * n, 2, LAMBDA i, j : IF i = n + 1 /\ j = 2 THEN 1 ELSE 0),
                Mk(1, 2, LAMBDA i, j : IF j = 2 THEN 1 ELSE 0),
                Mk(2, 2 * n, LAMBDA i, j : IF i = 1 /\ j <= n THEN NumAt(H, j) ELSE IF i = 2 /\ j > n THEN Neg1(DenAt(H, j - n)) ELSE 0),
                Mk(2, 1, LAMBDA i, j : IF i = 1 THEN NumAt(H, 0) ELSE 0), X, Q, R, Scalar(0))
      z == IF nbSum = 1 THEN one ELSE two
  IN IF tr THEN (IF nbSum = 2 THEN RevT(Dual(z)) ELSE Dual(z)) ELSE RevX(z)

\* Direct Form II: states v(k-n)..v(k-1)
DFII(H0, tr) ==
  LET H == TFNorm(H0) n == TFDeg(H)
      z == Z9(Eye(1), Mk(n, 1, LAMBDA i, j : IF i = n THEN 1 ELSE 0), Scalar(NumAt(H, 0)),
              Mk(1, n, LAMBDA i, j : Neg1(DenAt(H, n + 1 - j))), Scalar(1),
              Mk(n, n, LAMBDA i, j : IF j = i + 1 THEN 1 ELSE 0), Zeros(n, 1),
              Mk(1, n, LAMBDA i, j : NumAt(H, n + 1 - j)), Scalar(0))
  IN IF tr THEN RevX(Dual(z)) ELSE z

\* state-space without intermediate variables
SSForm(S) == Z9(Eye(0), Zeros(Order(S), 0), Zeros(NOut(S), 0), Zeros(0, Order(S)), Zeros(0, NIn(S)), S.A, S.B, S.C, S.D)
Ctrl(H) == TFtoSS(H)
Obs(H) == LET S == TFtoSS(H) IN SS(Tr(S.A), Tr(S.C), Tr(S.B), Tr(S.D))

(***************************************************************************)
(* rho Direct Form II: the delays are replaced by the operators            *)
(* rho_i = (z - gamma_i) / Delta_i.  With va, vb the coefficients of the    *)
(* polynomials in the basis (rho_1 .. rho_n, rho_2 .. rho_n, .., 1).       *)
(***************************************************************************)
\* coefficients of prod_{k in i+1..n} (z - g_k)/d_k on z^n .. z^0 (row i+1 of Tbar)
PolyProd(g, d, i, n) ==
  FoldLeft(LAMBDA s, k : PScale(Inv(d[k]), PMul(s, <<1, Neg1(g[k])>>)), <<1>>, [k \in 1..(n - i) |-> i + k])
Tbar(g, d, n) == Mk(n + 1, n + 1, LAMBDA i, j : IF j >= i THEN PAt(PolyProd(g, d, i - 1, n), j - i + 1) ELSE 0)
RhoCoefs(v, g, d, n) ==     \* the combination of the basis that gives the polynomial v
  LET ka == FoldLeft(LAMBDA s, k : Mul(s, d[k]), 1, Idx(n))
      T == MScale(ka, Tbar(g, d, n))
  IN MMul(Tr(MInv(T)), Mk(n + 1, 1, LAMBDA i, j : PAt(v, i)))
RhoDFII(H0, g, d, tr, ss) ==
  LET H == TFNorm(H0) n == TFDeg(H)
      va == RhoCoefs(H.den, g, d, n) vb == RhoCoefs(H.num, g, d, n)
      al(i) == va.e[i + 1][1] be(i) == vb.e[i + 1][1]
      z == Z9(Eye(n),
              Mk(n, n, LAMBDA i, j : IF j = 1 THEN Neg1(al(i)) ELSE IF j = i + 1 THEN 1 ELSE 0),
              Mk(1, n, LAMBDA i, j : IF j = 1 THEN 1 ELSE 0),
              Mk(n, n, LAMBDA i, j : IF i = j THEN d[i] ELSE 0),
              Mk(n, 1, LAMBDA i, j : IF i = 1 THEN be(0) ELSE 0),
              Mk(n, n, LAMBDA i, j : IF i = j THEN g[i] ELSE 0),
              Mk(n, 1, LAMBDA i, j : be(i)), Zeros(1, n), Scalar(0))
      zs == IF ss THEN SSForm(SysOf(z)) ELSE z
  IN IF tr THEN zs ELSE Dual(zs)

(***************************************************************************)
(* Li-Gevers-Sun and Li-Chu-Wu: A = (I + F)(I - F)^-1 for the tridiagonal  *)
(* F(alpha) is computed as a chain of elementary matrices                  *)
(***************************************************************************)
FTri(al) == LET n == Len(al) IN
  Mk(n, n, LAMBDA i, j : IF i = j /\ i = n THEN Neg1(al[n]) ELSE IF j = i + 1 THEN al[i] ELSE IF j = i - 1 THEN Neg1(al[j]) ELSE 0)
U1(i, j, x, n) == Mk(n, n, LAMBDA a, b : IF a = i /\ b = j THEN x ELSE IF a = b THEN 1 ELSE 0)
\* elimination of the tridiagonal I - F: pivots p(i), p(i+1) = 1 [+ al(n)] + al(i)^2 / p(i)
Pivots(al) == LET n == Len(al) IN
  FoldLeft(LAMBDA s, i : Append(s, LET d == IF i = n THEN (1 + al[n]) % P ELSE 1 IN
                          IF i = 1 THEN d ELSE (d + Mul(Mul(al[i - 1], al[i - 1]), Inv(s[i - 1]))) % P), << >>, Idx(n))
PivotsOK(al) == \A i \in 1..Len(al) : Pivots(al)[i] # 0
\* factors of (I - F)^-1, first applied first
ChainInv(al) ==
  LET n == Len(al) pv == Pivots(al) IN
  FoldLeft(LAMBDA s, i : s \o (IF i = 1 THEN << >> ELSE <<U1(i, i - 1, Neg1(al[i - 1]), n)>>) \o <<U1(i, i, Inv(pv[i]), n)>>, << >>, Idx(n))
  \o [k \in 1..(n - 1) |-> LET i == n - k IN U1(i, i + 1, Mul(al[i], Inv(pv[i])), n)]
\* subtracting F(i+1,i) = -al(i) times row i scaled: row i has already been divided by its pivot
Prod(ch, n) == FoldLeft(LAMBDA s, m : MMul(m, s), Eye(n), ch)
ChainSIF(ch, B, C, D, X) ==    \* t1 = ch[1] x, t(i) = ch[i] t(i-1); x+ = t(last) + X x + B u
  LET n == ch[1].r m == Len(ch) IN
  Z9(Mk(n * m, n * m, LAMBDA i, j : LET bi == (i - 1) \div n bj == (j - 1) \div n IN
        IF i = j THEN 1 ELSE IF bi = bj + 1 THEN Neg1(ch[bi + 1].e[i - bi * n][j - bj * n]) ELSE 0),
     Mk(n, n * m, LAMBDA i, j : IF j = n * (m - 1) + i THEN 1 ELSE 0), Zeros(1, n * m),
     Mk(n * m, n, LAMBDA i, j : IF i <= n THEN ch[1].e[i][j] ELSE 0), Zeros(n * m, 1), X, B, C, D)
LGSZ(al, B, C, D) == ChainSIF(Append(ChainInv(al), MAdd(Eye(Len(al)), FTri(al))), B, C, D, Zeros(Len(al), Len(al)))
LGSA(al) == MMul(MAdd(Eye(Len(al)), FTri(al)), MInv(MSub(Eye(Len(al)), FTri(al))))
\* A = 2 (I - F)^-1 - I
LCWZ(al, B, C, D) == LET ch == ChainInv(al) IN
  ChainSIF([ch EXCEPT ![1] = MScale(2, @)], B, C, D, MNeg(Eye(Len(al))))
=============================================================================
