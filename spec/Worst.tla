-------------------------------- MODULE Worst --------------------------------
(***************************************************************************)
(* The worst case of the last output of a system with one output, for the  *)
(* input sequences of length N bounded by ub (one bound per input):        *)
(*   y(N-1) = sum_k h(N-1-k) u(k)  with  h(0) = D, h(k) = C A^(k-1) B      *)
(* is at most  sum_k sum_j |h(k)_j| ub_j, for all admissible sequences.    *)
(***************************************************************************)
EXTENDS Wl
\* impulse response: 1 x q matrices h(0) .. h(N-1)
Impulse(S, N) ==
  IF N = 0 THEN << >> ELSE
  <<S.D>> \o [k \in 1..(N - 1) |-> FoldLeft(LAMBDA s, i : [X |-> BMul(S.A, s.X), h |-> BMul(S.C, s.X)], [X |-> S.B, h |-> S.D], [i \in 1..k |-> i]).h]
WorstOf(S, ub, N) == LET h == TLCEval(Impulse(S, N)) IN BSum(N, LAMBDA k : BSum(ub.r, LAMBDA j : DMul(DAbs(h[k].e[1][j]), ub.e[j][1])))
\* the last output, by running the system
LastOf(S, U) ==
  FoldLeft(LAMBDA s, k : LET u == BCol(U, k) IN [x |-> TLCEval(BAdd(BMul(S.A, s.x), BMul(S.B, u))), y |-> TLCEval(BAdd(BMul(S.C, s.x), BMul(S.D, u)).e[1][1])],
           [x |-> BZeros(S.A.r, 1), y |-> DZero], [k \in 1..U.c |-> k]).y
Admissible(U, ub) == \A i \in 1..U.r : \A k \in 1..U.c : DCmp(DAbs(U.e[i][k]), ub.e[i][1]) <= 0
\* the sequence which reaches the worst case
Design(S, ub, N) == LET h == TLCEval(Impulse(S, N)) IN
  BMk(ub.r, N, LAMBDA j, k : LET s == h[N - k + 1].e[1][j].s IN IF s = 0 THEN DZero ELSE IF s > 0 THEN ub.e[j][1] ELSE DNeg(ub.e[j][1]))
=============================================================================
