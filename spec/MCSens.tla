-------------------------------- MODULE MCSens --------------------------------
(***************************************************************************)
(* Small integer forms with one intermediate variable (J = 1), one state,  *)
(* one input, one output, one coefficient moved by eps (eps^2 = 0: dual    *)
(* numbers), run from the definition on every input sequence: the eps part *)
(* of the output is the output of the perturbation system fed with the     *)
(* variable of the coefficient, and the closed forms [K J^-1 I 0],         *)
(* [J^-1 M; I; 0] describe it.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Len0, Wide
VARIABLES z, at, k, st, lin
\* dual numbers <<a, b>> = a + b eps
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Mul(x, y) == <<x[1] * y[1], x[1] * y[2] + x[2] * y[1]>>
\* inverse of 1 + b eps
Inv(x) == <<1, -x[2]>>
Names == <<"K", "L", "M", "N", "P", "Q", "R", "S">>
\* the coefficient moved: row and column of Z = [-J M N; K P Q; L R S]
Cell(b) == CASE b = "J" -> <<1, 1>> [] b = "M" -> <<1, 2>> [] b = "N" -> <<1, 3>> [] b = "K" -> <<2, 1>> [] b = "P" -> <<2, 2>> [] b = "Q" -> <<2, 3>>
             [] b = "L" -> <<3, 1>> [] b = "R" -> <<3, 2>> [] OTHER -> <<3, 3>>
D(b) == <<z[b], IF b = at THEN 1 ELSE 0>>
\* the coefficient of Z is -J
DJ == <<1, IF at = "J" THEN -1 ELSE 0>>
Cs == IF Wide THEN {-1, 1, 2} ELSE {-1, 2}
Vec == {"K", "L", "M", "N", "P", "Q", "R", "S"}
Init == /\ z \in [Vec -> Cs] /\ at \in Vec \cup {"J"} /\ k = 0
        /\ st = [x |-> <<0, 0>>, y |-> <<0, 0>>] /\ lin = [x |-> 0, dx |-> 0, dy |-> 0]
\* the closed forms
M1(i) == IF i = 1 THEN z.K ELSE IF i = 2 THEN 1 ELSE 0
M2(i) == IF i = 1 THEN z.L ELSE IF i = 2 THEN 0 ELSE 1
N1(j) == IF j = 1 THEN z.M ELSE IF j = 2 THEN 1 ELSE 0
N2(j) == IF j = 1 THEN z.N ELSE IF j = 2 THEN 0 ELSE 1
RowOf(b) == Cell(b)[1]
ColOf(b) == Cell(b)[2]
Next ==
  /\ k < Len0 /\ k' = k + 1 /\ UNCHANGED <<z, at>>
  /\ \E u \in -1..1 :
     LET uu == <<u, 0>> t == Mul(Inv(DJ), Add(Mul(D("M"), st.x), Mul(D("N"), uu)))
         A == z.K * z.M + z.P C == z.L * z.M + z.R i == RowOf(at) j == ColOf(at) v == N1(j) * lin.x + N2(j) * u IN
     /\ st' = [x |-> Add(Mul(D("K"), t), Add(Mul(D("P"), st.x), Mul(D("Q"), uu))), y |-> Add(Mul(D("L"), t), Add(Mul(D("R"), st.x), Mul(D("S"), uu)))]
     /\ lin' = [x |-> A * lin.x + (z.K * z.N + z.Q) * u, dx |-> A * lin.dx + M1(i) * v, dy |-> C * lin.dx + M2(i) * v]
Spec == Init /\ [][Next]_<<z, at, k, st, lin>>
Derivative == st.y[2] = lin.dy /\ st.x[2] = lin.dx /\ st.x[1] = lin.x
\* the pole A = K M + P: its derivative is M1(i) N1(j)
Pole == LET A == Add(Mul(Mul(D("K"), Inv(DJ)), D("M")), D("P")) IN A[2] = M1(RowOf(at)) * N1(ColOf(at))
\* wrong rules
Transposed(b) == <<Cell(b)[2], Cell(b)[1]>>[1]
OnlyD(i) == IF i = 1 THEN 0 ELSE IF i = 2 THEN 0 ELSE 1
NoT(j) == IF j = 2 THEN 1 ELSE 0
=============================================================================
