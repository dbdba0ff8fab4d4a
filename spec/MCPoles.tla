------------------------------- MODULE MCPoles -------------------------------
(***************************************************************************)
(* Every 2 x 2 integer matrix T diag(a, b) T^-1 (T unimodular, small), one *)
(* of its entries moved by eps: the derivative of the pole a is given by   *)
(* its eigenvectors, i.e. the characteristic polynomial of the moved       *)
(* matrix vanishes at a + eps da (dual numbers).                           *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS Bnd
VARIABLES t, la, cell, done
C == -Bnd..Bnd
Det == t[1][1] * t[2][2] - t[1][2] * t[2][1]
\* adjugate; T^-1 = Det * adjugate (Det = 1 or -1)
Ti == << <<Det * t[2][2], - Det * t[1][2]>>, <<- Det * t[2][1], Det * t[1][1]>> >>
A(i, j) == t[i][1] * la[1] * Ti[1][j] + t[i][2] * la[2] * Ti[2][j]
Init == /\ t \in [1..2 -> [1..2 -> C]] /\ Det \in {1, -1} /\ la \in {x \in C \X C : x[1] # x[2]} /\ cell \in (1..2) \X (1..2) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, la, cell>>
Spec == Init /\ [][Next]_<<t, la, cell, done>>
\* left eigenvector: row of T^-1, right: column of T, product 1
Dla(k) == Ti[k][cell[1]] * t[cell[2]][k]
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Neg(x) == <<-x[1], -x[2]>>
Mul(x, y) == <<x[1] * y[1], x[1] * y[2] + x[2] * y[1]>>
AA(i, j) == <<A(i, j), IF <<i, j>> = cell THEN 1 ELSE 0>>
Vanishes == \A k \in 1..2 : LET x == <<la[k], Dla(k)>> IN
  Add(Mul(Add(x, Neg(AA(1, 1))), Add(x, Neg(AA(2, 2)))), Neg(Mul(AA(1, 2), AA(2, 1)))) = <<0, 0>>
Swapped(k) == Ti[k][cell[2]] * t[cell[1]][k]
RightOnly(k) == t[cell[1]][k] * t[cell[2]][k]
=============================================================================
