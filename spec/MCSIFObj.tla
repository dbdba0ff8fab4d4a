------------------------------ MODULE MCSIFObj ------------------------------
EXTENDS SIFObj
Elems == {0, 1, 3}
\* exhaustive: a few representative matrices of every size
AllMats(kind, r, c) ==
  IF kind = "J" THEN {m \in {[r |-> r, c |-> c, e |-> TLCEval([i \in 1..r |-> [j \in 1..c |-> IF i = j THEN a ELSE 0]])] : a \in {1, 3}} : TRUE}
  ELSE IF kind = "d" THEN {Mk(r, c, LAMBDA i, j : a) : a \in {0, 1}}
  ELSE {Mk(r, c, LAMBDA i, j : a) : a \in {1, 3}}
View == <<obj, ops>>
SmallDims == {<<1, 1, 1, 1>>, <<0, 1, 1, 1>>}
S0 == {0}
=============================================================================
