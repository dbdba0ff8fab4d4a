-------------------------------- MODULE GenAna --------------------------------
(***************************************************************************)
(* Random stable systems (A = T D T^-1 in quarters, T integer unimodular,  *)
(* D block triangular with eigenvalues of modulus < 1) and histories of    *)
(* reads and transformations.                                              *)
(***************************************************************************)
EXTENDS RandLib, Integers
CONSTANTS MaxLen
IMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> FoldLeft(LAMBDA s, k : s + a[i][k] * b[k][j], 0, Idx(Len(b)))]]
IEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
\* unit triangular factor and its inverse (one elementary row operation)
Elem(n, r, c, v) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE IF i = r /\ j = c THEN v ELSE 0]]
Pair(n) == LET r == TLCEval(Rnd(1..n)) c == TLCEval(Rnd(1..n)) v == TLCEval(Rnd({-1, 1, 2})) IN
           IF n < 2 \/ r = c THEN <<IEye(n), IEye(n)>> ELSE <<Elem(n, r, c, v), Elem(n, r, c, -v)>>
\* block triangular, times 4
Diag4(n) ==
  LET rot == TLCEval(n >= 2 /\ Rnd(1..2) = 1)
      ab == TLCEval(RndSeq(<< <<2, 2>>, <<3, 1>>, <<1, 3>>, <<0, 3>>, <<-2, 1>>, <<-1, -2>> >>))
      ev == TLCEval([k \in 1..n |-> RndSeq(<<0, 1, 2, 2, -2, -1, 3, -3>>)])
      up == TLCEval([k \in 1..(n * n) |-> Rnd({-4, -2, 0, 0, 2, 4})])
  IN TLCEval([i \in 1..n |-> [j \in 1..n |->
       IF rot /\ i <= 2 /\ j <= 2 THEN (IF i = j THEN ab[1] ELSE IF i < j THEN ab[2] ELSE -ab[2])
       ELSE IF i = j THEN ev[i] ELSE IF i < j THEN up[n * (i - 1) + j] ELSE 0]])
Conj(a, n) == LET p == TLCEval(Pair(n)) IN TLCEval(IMul(IMul(p[1], a), p[2]))
A4(n) == IF n = 0 THEN << >> ELSE Conj(Conj(Diag4(n), n), n)
IM(r, c) == TLCEval([i \in 1..r |-> [j \in 1..c |-> RndSeq(<<0, 1, 1, -1, 2, -2, 3>>)]])
Sys(r) ==
  LET n == TLCEval(RndSeq(<<0, 1, 2, 2, 3, 3>>)) p == TLCEval(RndSeq(<<1, 1, 2>>)) q == TLCEval(RndSeq(<<1, 1, 2>>))
  IN [op |-> "new", n |-> n, p |-> p, q |-> q, A4 |-> A4(n), B |-> IM(n, q), C |-> IM(p, n), D |-> IM(p, q)]
\* an invertible integer matrix, dense: product of elementary ones, a permutation and a scaling
TT(n) ==
  LET e1 == TLCEval(Pair(n)[1]) e2 == TLCEval(Pair(n)[1]) e3 == TLCEval(Pair(n)[1]) pm == TLCEval(Rnd(Permutations(1..n)))
      s == TLCEval([i \in 1..n |-> RndSeq(<<1, 1, -1, 2, 3>>)])
      pr == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF pm[i] = j THEN s[i] ELSE 0]])
  IN TLCEval(IMul(IMul(IMul(e1, e2), pr), e3))
Reads == <<"Wo", "Wc", "H2", "DC", "W", "W", "Wo", "Wc", "calcWo", "calcWc", "Winfo">>
TFt(r) == LET n == TLCEval(Rnd(0..2)) IN [op |-> "tf", num |-> TLCEval([k \in 1..(n + 1) |-> Rnd(-3..3)]), den4 |-> TLCEval(<<RndSeq(<<4, 4, 8, -4>>)>> \o [k \in 1..n |-> Rnd(-1..1)])]
\* diagonal systems with a pole on the unit circle: the equations of the Gramians have no solution
Marg(r) ==
  LET n == TLCEval(Rnd(1..3)) k == TLCEval(Rnd(1..n)) s == TLCEval(RndSeq(<<4, 4, -4>>)) p == TLCEval(Rnd(1..2)) q == TLCEval(Rnd(1..2))
      d == TLCEval([i \in 1..n |-> IF i = k THEN s ELSE RndSeq(<<0, 1, 2, -2, -3>>)]) IN
  [op |-> "marg", n |-> n, p |-> p, q |-> q, A4 |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE 0]], B |-> IM(n, q), C |-> IM(p, n), D |-> IM(p, q),
   order |-> TLCEval(Rnd(Permutations(1..4)))]
RECURSIVE Walk(_, _, _)
Walk(ns, hs, len) ==
  IF len = 0 THEN hs
  ELSE IF ns = << >> \/ (Len(ns) < 3 /\ Rnd(1..6) = 1) THEN LET s == TLCEval(Sys(0)) IN Walk(Append(ns, s.n), Append(hs, s), len - 1)
  ELSE LET i == TLCEval(Rnd(1..Len(ns))) n == ns[i] w == TLCEval(Rnd(1..20)) IN
       IF w <= 5 THEN Walk(ns, Append(hs, IF n = 0 THEN [op |-> "read", i |-> i, w |-> RndSeq(Reads)]
                                          ELSE IF Rnd(1..8) = 1 THEN [op |-> "simil", i |-> i, bad |-> Rnd({"size", "singular"}), T |-> IEye(n), f |-> "np"]
                                          ELSE [op |-> "simil", i |-> i, bad |-> "", T |-> TT(n), f |-> RndSeq(<<"np", "np", "array", "list">>)]), len - 1)
       ELSE IF w = 6 THEN Walk(ns, Append(hs, IF Rnd(1..2) = 1 THEN TFt(0) ELSE Marg(0)), len - 1)
       ELSE Walk(ns, Append(hs, [op |-> "read", i |-> i, w |-> RndSeq(Reads)]), len - 1)
Draw(r) == Walk(<< >>, << >>, Rnd(4..MaxLen))
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
