------------------------------ MODULE GenWorst ------------------------------
(***************************************************************************)
(* Random implicit forms with one output, and histories of: worst-case     *)
(* sequences (length, bounds given in any of the accepted forms, bounds of *)
(* the wrong size) and assignments to the coefficients.                    *)
(***************************************************************************)
EXTENDS RandLib, Integers
WM(r, c, pool) == [r |-> r, c |-> c, e |-> TLCEval([i \in 1..r |-> [j \in 1..c |-> RndSeq(pool)]])]
Few == <<1, -1, 2, -2, 3, -3, 0, 0>>
Many == <<1, -1, 2, -2, 3, -5, 7, 0>>
Block(b, l, n, q) ==
  CASE b = "J" -> [r |-> l, c |-> l, e |-> TLCEval([i \in 1..l |-> [j \in 1..l |-> IF i = j THEN 4 ELSE IF j < i THEN RndSeq(<<0, 0, 2, -2, 4>>) ELSE 0]])]
    [] b = "K" -> WM(n, l, Few) [] b = "M" -> WM(l, n, Few) [] b = "PP" -> WM(n, n, Few)
    [] b = "N" -> WM(l, q, Many) [] b = "Q" -> WM(n, q, Many) [] b = "L" -> WM(1, l, Many) [] b = "R" -> WM(1, n, Many) [] b = "S" -> WM(1, q, Many)
Names == <<"J", "K", "L", "M", "N", "PP", "Q", "R", "S">>
Op(k, l, n, q) ==
  LET x == TLCEval(Rnd(1..10)) b == TLCEval(RndSeq(Names)) IN
  CASE x <= 6 \/ k <= 2 -> [op |-> "gen", N |-> RndSeq(<<1, 2, 2, 3, 4, 5, 7, 9, 12>>), form |-> RndSeq(<<"list", "row", "col">>), u |-> TLCEval([i \in 1..q |-> <<RndSeq(<<1, 1, 3, 5, 100, 1234567>>), RndSeq(<<0, 0, 1, 5, -1, -3, -10>>)>>])]
    [] x <= 7 -> [op |-> "bad", N |-> RndSeq(<<2, 3, 5>>), form |-> RndSeq(<<"list", "row", "col">>), u |-> TLCEval([i \in 1..(IF q = 1 \/ Rnd(1..2) = 1 THEN q + 1 ELSE q - 1) |-> <<1, 0>>])]
    [] OTHER -> [op |-> "set", b |-> b, v |-> TLCEval(Block(b, l, n, q))]
Draw(r) ==
  LET l == TLCEval(RndSeq(<<0, 1, 1, 2, 3>>)) n == TLCEval(RndSeq(<<1, 1, 2, 2, 3, 4>>)) q == TLCEval(RndSeq(<<1, 1, 2, 2, 3>>)) IN
  [z |-> TLCEval([b \in {"J", "K", "L", "M", "N", "PP", "Q", "R", "S"} |-> Block(b, l, n, q)]),
   s |-> [sJ |-> 2, sA |-> RndSeq(<<1, 2, 3>>), sK |-> RndSeq(<<0, 1, 2>>), sB |-> RndSeq(<<0, 1, 6>>), sC |-> RndSeq(<<0, 1, 7>>), sS |-> RndSeq(<<0, 2, 4>>)],
   ops |-> TLCEval([k \in 1..RndSeq(<<3, 5, 8>>) |-> Op(k, l, n, q)])]
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
