------------------------------- MODULE GenAlgo -------------------------------
(* realizations (any sizes, P upper triangular or not) with surnames, inputs *)
EXTENDS RandLib
Pool == <<0, 0, 0, 1, -1, 1, 2, 3, -3, 5, -6, 4>>
UnitLower(r) == Mk(r, r, LAMBDA i, j : IF i = j THEN 0 ELSE IF j < i THEN RndSeq(Pool) ELSE 0)   \* the diagonal is put by the driver: 1
None == [t |-> << >>, x |-> << >>]
Words == <<"a", "b", "v", "w", "sum", "gain">>
\* plain surnames, or one word with several indices
Surs(n, w) == LET k == Rnd(1..3) IN
  IF n = 0 THEN << >>
  ELSE IF k = 1 THEN TLCEval([i \in 1..n |-> [s |-> w \o Words[i], i |-> -1, sh |-> 0]])
  ELSE IF k = 2 THEN TLCEval([i \in 1..n |-> [s |-> w, i |-> 2 * i + 1, sh |-> 0]])
  ELSE << >>
SurKind(d) == LET k == Rnd(1..3) IN IF k = 1 THEN None ELSE [t |-> Surs(d[1], "m"), x |-> Surs(d[2], "s")]
AnyReal(r) == LET d == <<Rnd(0..3), Rnd(0..4), Rnd(1..2), Rnd(1..2)>> up == Rnd(BOOLEAN) IN
  LET l == d[1] n == d[2] p == d[3] q == d[4] rz == Rnd(1..3) IN
  [d |-> d, sc |-> Rnd({0, 0, 2}), sur |-> TLCEval(SurKind(d)),
   J |-> UnitLower(l), K |-> RMat(n, l, Pool), L |-> RMat(p, l, Pool), M |-> RMat(l, n, Pool), N |-> RMat(l, q, Pool),
   PP |-> Mk(n, n, LAMBDA i, j : IF up /\ j < i THEN 0 ELSE RndSeq(Pool)), Q |-> RMat(n, q, Pool),
   R |-> IF rz = 1 THEN Zeros(p, n) ELSE RMat(p, n, Pool), S |-> RMat(p, q, Pool)]
\* the states are the past values of one input (named after it), in one order or the other
Chain(r) == LET d == <<Rnd(0..2), Rnd(1..4), Rnd(1..2), Rnd(1..2)>> up == Rnd(BOOLEAN) j == Rnd(1..2) sc == Rnd({0, 2}) IN
  LET l == d[1] n == d[2] p == d[3] q == d[4]
      h == IF q = 1 THEN 1 ELSE j
      delay(i) == IF up THEN n + 1 - i ELSE i
      one == 2^sc IN
  [d |-> d, sc |-> sc,
   sur |-> [t |-> Surs(l, "m"), x |-> TLCEval([i \in 1..n |-> [s |-> "u", i |-> IF q = 1 THEN -1 ELSE h, sh |-> -delay(i)]])],
   J |-> UnitLower(l), K |-> Zeros(n, l), L |-> RMat(p, l, Pool), M |-> RMat(l, n, Pool), N |-> RMat(l, q, Pool),
   PP |-> Mk(n, n, LAMBDA a, b : IF delay(a) = delay(b) + 1 THEN one ELSE 0),
   Q |-> Mk(n, q, LAMBDA a, b : IF delay(a) = 1 /\ b = h THEN one ELSE 0), R |-> RMat(p, n, Pool), S |-> RMat(p, q, Pool)]
Draw(r) == LET z == TLCEval(IF Rnd(1..4) = 1 THEN Chain(r) ELSE AnyReal(r)) IN
  [z |-> z, u |-> RMat(z.d[4], 4, <<1, -1, 2, 0, 3>>)]
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
