------------------------------ MODULE GenSIFObj ------------------------------
(* simulation: random matrices; the history is printed when it is complete *)
EXTENDS SIFObj
CONSTANTS UnitJ, LowerOnly        \* 2^sc: the unit of the scaled coefficients
Pool == <<0, 0, 0, 0, 1, -1, 1, 2, 3, -3, 5, -6, 4>>
Rnd(S) == RandomElement(S)
One(S) == {RandomElement(S)}
W25 == 2..5
CONSTANT NRuns
AllRuns == 1..NRuns
LowerJ(r, u) == Mk(r, r, LAMBDA i, j : IF i = j THEN u * <<1, 1, 1, 1, -1, 2>>[Rnd(1..6)] ELSE IF j < i THEN <<0, 0, 1, -1, 2, 3, -3, 4>>[Rnd(1..8)] ELSE 0)
UnitLower(r) == Mk(r, r, LAMBDA i, j : IF i = j THEN 1 ELSE IF j < i THEN <<0, 0, 1, -1, 2>>[Rnd(1..5)] ELSE 0)
UnitUpper(r) == Mk(r, r, LAMBDA i, j : IF i = j THEN 1 ELSE IF j > i THEN <<0, 0, 1, -1, 2>>[Rnd(1..5)] ELSE 0)
IDot(a, b, i, j) == FoldLeft(LAMBDA s, k : s + a.e[i][k] * b.e[k][j], 0, Idx(a.c))
IMul(a, b) == Mk(a.r, b.c, LAMBDA i, j : UnitJ * IDot(a, b, i, j))
UniJ(r) == LET a == TLCEval(UnitLower(r)) b == TLCEval(UnitUpper(r)) IN IMul(a, b)
RandMat(kind, r, c) ==
  IF kind = "J" THEN (IF ~LowerOnly /\ Rnd(1..5) = 1 THEN UniJ(r) ELSE LowerJ(r, UnitJ))
  ELSE IF kind = "J4" THEN LowerJ(r, 16)
  ELSE IF kind = "d" THEN Mk(r, c, LAMBDA i, j : Rnd({0, 1}))
  ELSE Mk(r, c, LAMBDA i, j : Pool[Rnd(1..Len(Pool))])
CodeJ(r, u) == Mk(r, r, LAMBDA i, j : IF i = j THEN u ELSE IF j < i THEN <<0, 0, 1, -1, 2, 3, -3, 4>>[Rnd(1..8)] ELSE 0)
\* unit lower triangular J, P upper triangular once out of three
Upper(m) == Mk(m.r, m.c, LAMBDA i, j : IF j < i THEN 0 ELSE m.e[i][j])
CodeMats(kind, r, c) ==
  IF kind = "J" THEN {TLCEval(CodeJ(r, UnitJ))} ELSE IF kind = "J4" THEN {TLCEval(CodeJ(r, 16))}
  ELSE IF kind = "P" /\ Rnd(1..3) = 1 THEN {TLCEval(Upper(TLCEval(RandMat(kind, r, c))))} ELSE {TLCEval(RandMat(kind, r, c))}
CodeReads == {"crun", "crun2", "ccode"}
CodeDims == {<<l, n, p, q>> : l \in 0..3, n \in 0..3, p \in 1..3, q \in 1..3}
RandMats(kind, r, c) == {TLCEval(RandMat(kind, r, c))}
GenDims == {<<l, n, p, q>> : l \in 0..3, n \in 1..3, p \in 1..2, q \in 1..2}
BigDims == {<<l, n, p, q>> : l \in 0..4, n \in 1..4, p \in 1..3, q \in 1..3}
Siso == {<<l, n, 1, 1>> : l \in 0..3, n \in 1..3}
S0 == {0}
S3 == {3}
=============================================================================
