---------------------------------- MODULE SIF ---------------------------------
(***************************************************************************)
(* The Specialized Implicit Form.  A SIF Z = (J,K,L,M,N,P,Q,R,S) denotes   *)
(* the program executed at each step k                                     *)
(*     J.t(k+1) = M.x(k) + N.u(k)                                          *)
(*     x(k+1)   = K.t(k+1) + P.x(k) + Q.u(k)                               *)
(*     y(k)     = L.t(k+1) + R.x(k) + S.u(k)                               *)
(* This module gives that operational meaning (Step) and, separately, the  *)
(* closed forms the library computes (AZ.., Hu, Hzeta, Hepsilon); the       *)
(* theorems relating both are checked exhaustively over small fields in    *)
(* SIFTheory.tla.                                                          *)
(* A SIF is a record of its nine matrices, named J K L M N PP Q R S        *)
(* (PP because P is the field's characteristic).                           *)
(***************************************************************************)
EXTENDS GF

BlockNames == {"J", "K", "L", "M", "N", "P", "Q", "R", "S"}

l_(z) == z.J.r
n_(z) == z.PP.r
p_(z) == z.S.r
q_(z) == z.S.c

DimOK(z) == /\ z.J.r = z.J.c
            /\ z.K.r = n_(z) /\ z.K.c = l_(z)
            /\ z.L.r = p_(z) /\ z.L.c = l_(z)
            /\ z.M.r = l_(z) /\ z.M.c = n_(z)
            /\ z.N.r = l_(z) /\ z.N.c = q_(z)
            /\ z.PP.r = z.PP.c
            /\ z.Q.r = n_(z) /\ z.Q.c = q_(z)
            /\ z.R.r = p_(z) /\ z.R.c = n_(z)

Block(z, b) == CASE b = "J" -> z.J [] b = "K" -> z.K [] b = "L" -> z.L
                 [] b = "M" -> z.M [] b = "N" -> z.N [] b = "P" -> z.PP
                 [] b = "Q" -> z.Q [] b = "R" -> z.R [] b = "S" -> z.S
WithBlock(z, b, v) ==
  CASE b = "J" -> [z EXCEPT !.J = v] [] b = "K" -> [z EXCEPT !.K = v]
    [] b = "L" -> [z EXCEPT !.L = v] [] b = "M" -> [z EXCEPT !.M = v]
    [] b = "N" -> [z EXCEPT !.N = v] [] b = "P" -> [z EXCEPT !.PP = v]
    [] b = "Q" -> [z EXCEPT !.Q = v] [] b = "R" -> [z EXCEPT !.R = v]
    [] b = "S" -> [z EXCEPT !.S = v]

\* the matrix Z; FromZ is its inverse
ZMat(z) == VCat(HCat(HCat(MNeg(z.J), z.M), z.N),
           VCat(HCat(HCat(z.K, z.PP), z.Q),
                HCat(HCat(z.L, z.R), z.S)))
FromZ(Z, l, n, p, q) ==
  [J |-> MNeg(SubM(Z, 0, l, 0, l)), K |-> SubM(Z, l, n, 0, l), L |-> SubM(Z, l + n, p, 0, l),
   M |-> SubM(Z, 0, l, l, n), N |-> SubM(Z, 0, l, l + n, q),
   PP |-> SubM(Z, l, n, l, n), Q |-> SubM(Z, l, n, l + n, q),
   R |-> SubM(Z, l + n, p, l, n), S |-> SubM(Z, l + n, p, l + n, q)]
\* Z with the (unit) diagonal of J removed: the coefficients really computed with
ZComp(z) == VCat(HCat(HCat(MAdd(MNeg(z.J), Eye(l_(z))), z.M), z.N),
            VCat(HCat(HCat(z.K, z.PP), z.Q),
                 HCat(HCat(z.L, z.R), z.S)))

(***************************************************************************)
(* Operational meaning                                                     *)
(***************************************************************************)
UnitLT(J) == \A i, j \in 1..J.r : (i = j => J.e[i][j] = 1) /\ (j > i => J.e[i][j] = 0)

\* solve J t = v when J is unit lower triangular: computed in order, t_1 first
ForwardSolve(J, v) ==
  LET RECURSIVE go(_)
      go(t) == IF Len(t) = J.r THEN t
               ELSE LET i == Len(t) + 1
                        s == FoldLeft(LAMBDA a, j : (a + Mul(J.e[i][j], t[j])) % P, 0, Idx(i - 1))
                    IN go(Append(t, (v.e[i][1] + Neg1(s)) % P))
      t == go(<< >>)
  IN Mk(J.r, 1, LAMBDA i, j : t[i])
\* in general the implicit equation has a solution for every right-hand side iff J is invertible
Solve(J, v) == IF UnitLT(J) THEN ForwardSolve(J, v) ELSE MMul(MInv(J), v)

\* one step, with an additive perturbation eps (l+n+p) x 1 on the right-hand sides
StepEps(z, x, u, eps) ==
  LET l == l_(z) n == n_(z) p == p_(z)
      t == Solve(z.J, MAdd(MAdd(MMul(z.M, x), MMul(z.N, u)), SubM(eps, 0, l, 0, 1)))
      xp == MAdd(MAdd(MAdd(MMul(z.K, t), MMul(z.PP, x)), MMul(z.Q, u)), SubM(eps, l, n, 0, 1))
      y == MAdd(MAdd(MAdd(MMul(z.L, t), MMul(z.R, x)), MMul(z.S, u)), SubM(eps, l + n, p, 0, 1))
  IN [t |-> t, x |-> xp, y |-> y]
Step(z, x, u) == StepEps(z, x, u, Zeros(l_(z) + n_(z) + p_(z), 1))

\* run on the columns of U from a zero state; results are sequences of column vectors
Run(z, U) ==
  FoldLeft(LAMBDA s, u : LET w == Step(z, s.x, u)
                         IN [x |-> w.x, t |-> Append(s.t, w.t), xs |-> Append(s.xs, s.x),
                             xps |-> Append(s.xps, w.x), y |-> Append(s.y, w.y)],
           [x |-> Zeros(n_(z), 1), t |-> << >>, xs |-> << >>, xps |-> << >>, y |-> << >>], Cols(U))
RunEps(z, E) ==   \* input is the perturbation only (linear system: deviation of the output)
  FoldLeft(LAMBDA s, eps : LET w == StepEps(z, s.x, Zeros(q_(z), 1), eps)
                           IN [x |-> w.x, y |-> Append(s.y, w.y)],
           [x |-> Zeros(n_(z), 1), y |-> << >>], Cols(E)).y

SimOut(z, U) == FromCols(p_(z), Run(z, U).y)
SimHu(z, U) == LET r == Run(z, U)
               IN FromCols(l_(z) + n_(z) + p_(z),
                           [k \in 1..U.c |-> VCat(r.t[k], VCat(r.xps[k], r.y[k]))])
SimHzeta(z, U) == LET r == Run(z, U)
                  IN FromCols(l_(z) + n_(z) + p_(z),
                              [k \in 1..U.c |-> VCat(r.t[k], VCat(r.xs[k], r.y[k]))])
SimEps(z, E) == FromCols(p_(z), RunEps(z, E))

(***************************************************************************)
(* Closed forms                                                            *)
(***************************************************************************)
InvJ(z) == MInv(z.J)
AZ(z) == MAdd(MMul(z.K, MMul(InvJ(z), z.M)), z.PP)
BZ(z) == MAdd(MMul(z.K, MMul(InvJ(z), z.N)), z.Q)
CZ(z) == MAdd(MMul(z.L, MMul(InvJ(z), z.M)), z.R)
DZ(z) == MAdd(MMul(z.L, MMul(InvJ(z), z.N)), z.S)
SysOf(z) == LET iv == InvJ(z)
                ivM == MMul(iv, z.M)
                ivN == MMul(iv, z.N)
            IN SS(MAdd(MMul(z.K, ivM), z.PP), MAdd(MMul(z.K, ivN), z.Q),
                  MAdd(MMul(z.L, ivM), z.R), MAdd(MMul(z.L, ivN), z.S))
M1(z) == HCat(HCat(MMul(z.K, InvJ(z)), Eye(n_(z))), Zeros(n_(z), p_(z)))
M2(z) == HCat(HCat(MMul(z.L, InvJ(z)), Zeros(p_(z), n_(z))), Eye(p_(z)))
N1(z) == VCat(MMul(InvJ(z), z.M), VCat(AZ(z), CZ(z)))
N2(z) == VCat(MMul(InvJ(z), z.N), VCat(BZ(z), DZ(z)))
HuSys(z) == SS(AZ(z), BZ(z), N1(z), N2(z))
HzetaSys(z) == SS(AZ(z), BZ(z), VCat(MMul(InvJ(z), z.M), VCat(Eye(n_(z)), CZ(z))),
                  VCat(MMul(InvJ(z), z.N), VCat(Zeros(n_(z), q_(z)), DZ(z))))
HepsSys(z) == SS(AZ(z), M1(z), CZ(z), M2(z))
=============================================================================
