------------------------------- MODULE GenSens -------------------------------
(***************************************************************************)
(* Random implicit forms with known modes: P = A - K J^-1 M, A = T D T^-1  *)
(* in sixteenths (T integer unimodular, D nilpotent or block diagonal with *)
(* distinct poles of rational modulus), and histories of sensitivities and *)
(* assignments.                                                            *)
(***************************************************************************)
EXTENDS RandLib, Integers
SMul(a, b, nb) == [i \in 1..Len(a) |-> [j \in 1..nb |-> FoldLeft(LAMBDA s, k : s + a[i][k] * b[k][j], 0, Idx(Len(b)))]]
SEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Elem(n, r, c, v) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE IF i = r /\ j = c THEN v ELSE 0]]
\* T and its inverse
Pair(n) == LET r == TLCEval(Rnd(1..n)) c == TLCEval(Rnd(1..n)) v == TLCEval(Rnd({-1, 1, 2})) IN
           IF n < 2 \/ r = c THEN <<SEye(n), SEye(n)>> ELSE <<Elem(n, r, c, v), Elem(n, r, c, -v)>>
TPair(n) == LET a == TLCEval(Pair(n)) b == TLCEval(Pair(n)) IN <<TLCEval(SMul(a[1], b[1], n)), TLCEval(SMul(b[2], a[2], n))>>
Cplx == << <<6, 8, 10>>, <<8, 6, 10>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<-8, 6, 10>>, <<-6, 8, 10>>, <<4, 3, 5>> >>
Reals(k) == LET r == TLCEval(RandomElement({s \in [1..k -> {8, -8, 4, 10, -10, 2, -4, 6, 1}] : \A i, j \in 1..k : i # j => s[i] # s[j]})) IN [i \in 1..k |-> <<r[i], 0, 0>>]
\* modes of the blocks: <<a, 0, 0>> real pole, <<a, b, r>> pair a +- ib of modulus r
Modes(n) == IF n >= 2 /\ Rnd(1..2) = 1 THEN <<RndSeq(Cplx)>> \o Reals(n - 2) ELSE Reals(n)
Offset(ms, k) == k + (IF k > 1 /\ ms[1][2] # 0 THEN 1 ELSE 0)
DiagOf(n, ms) ==
  [i \in 1..n |-> [j \in 1..n |->
    IF ms[1][2] # 0 /\ i <= 2 /\ j <= 2 THEN (IF i = j THEN ms[1][1] ELSE IF i < j THEN - ms[1][2] ELSE ms[1][2])
    ELSE IF i # j THEN 0 ELSE ms[IF ms[1][2] # 0 THEN i - 1 ELSE i][1]]]
Nilp(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i < j THEN RndSeq(<<16, 8, -8, 12, 0, 20>>) ELSE 0]])
Modal(n) ==
  LET nil == TLCEval(Rnd(1..2) = 1) ms == IF nil THEN << >> ELSE TLCEval(Modes(n)) tp == TLCEval(TPair(n)) IN
  [ms |-> ms, T |-> tp[1], Ti |-> tp[2], A |-> TLCEval(SMul(SMul(tp[1], IF nil THEN Nilp(n) ELSE DiagOf(n, ms), n), tp[2], n))]
WM(r, c, pool) == TLCEval([i \in 1..r |-> [j \in 1..c |-> RndSeq(pool)]])
JInv(J) == LET l == Len(J) IN FoldLeft(LAMBDA inv, i : Append(inv, [j \in 1..l |-> (IF i = j THEN 1 ELSE 0) - FoldLeft(LAMBDA s, k : s + J[i][k] * inv[k][j], 0, Idx(i - 1))]), << >>, Idx(l))
\* 16 P, for K and M in units of 2^-sK
POf(n, l, A, J, K, M, sK) == LET X == SMul(SMul(K, TLCEval(JInv(J)), l), M, n) IN
  IF l = 0 THEN A ELSE TLCEval([i \in 1..n |-> [j \in 1..n |-> A[i][j] - 2 ^ (4 - 2 * sK) * X[i][j]]])
Few == <<1, -1, 2, 3, -3, 0, 0>>
Many == <<1, -1, 3, -5, 7, 2, 0>>
RECURSIVE Walk(_, _, _)
Walk(d, hs, len) ==
  IF len = 0 THEN hs
  ELSE LET w == TLCEval(Rnd(1..12)) IN
    IF w <= 6 THEN Walk(d, Append(hs, [op |-> IF w <= 2 THEN "dtf" ELSE IF w <= 4 THEN "pole" ELSE "polec"]), len - 1)
    ELSE IF w <= 8 THEN LET b == TLCEval(RndSeq(<<"L", "N", "Q", "R", "S">>))
                            sz == CASE b = "L" -> <<d.p, d.l>> [] b = "N" -> <<d.l, d.q>> [] b = "Q" -> <<d.n, d.q>> [] b = "R" -> <<d.p, d.n>> [] OTHER -> <<d.p, d.q>> IN
                        Walk(d, Append(hs, [op |-> "set", b |-> b, v |-> WM(sz[1], sz[2], Many)]), len - 1)
    ELSE IF w = 9 THEN Walk(d, Append(hs, [op |-> "setdZ", v |-> WM(d.l + d.n + d.p, d.l + d.n + d.q, IF Rnd(1..2) = 1 THEN <<0, 4, 4>> ELSE <<0, 4, 2, 8, 12, 1>>)]), len - 1)
    ELSE IF w <= 11 THEN LET m == TLCEval(Modal(d.n)) K == WM(d.n, d.l, Few) IN
                     Walk(d, Append(hs, [op |-> "setA", K |-> K, mod |-> m, PP |-> POf(d.n, d.l, m.A, d.J, K, d.M, d.sK)]), len - 1)
    ELSE Walk(d, Append(hs, [op |-> "read"]), len - 1)
Draw(r) ==
  LET l == TLCEval(RndSeq(<<0, 1, 1, 2>>)) n == TLCEval(RndSeq(<<1, 2, 2, 3>>)) p == TLCEval(RndSeq(<<1, 1, 2>>)) q == TLCEval(RndSeq(<<1, 1, 2>>))
      J == TLCEval([i \in 1..l |-> [j \in 1..l |-> IF i = j THEN 1 ELSE IF j < i THEN RndSeq(<<0, 1, -1, 3>>) ELSE 0]])
      K == WM(n, l, Few) M == WM(l, n, Few) sK == TLCEval(Rnd(0..2)) m == TLCEval(Modal(n)) IN
  [l |-> l, n |-> n, p |-> p, q |-> q, J |-> J, K |-> K, M |-> M, sK |-> sK, mod |-> m, PP |-> POf(n, l, m.A, J, K, M, sK),
   L |-> WM(p, l, Many), N |-> WM(l, q, Many), Q |-> WM(n, q, Many), R |-> WM(p, n, Many), S |-> WM(p, q, Many), sB |-> RndSeq(<<0, 0, 1, 3>>), sC |-> RndSeq(<<0, 0, 1, 3>>),
   ops |-> Walk([l |-> l, n |-> n, p |-> p, q |-> q, J |-> J, M |-> M, sK |-> sK], << [op |-> RndSeq(<<"dtf", "pole", "polec">>)] >>, Rnd(2..5))]
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
