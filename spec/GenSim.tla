-------------------------------- MODULE GenSim --------------------------------
(***************************************************************************)
(* Random multiprecision state-spaces and calls to their simulation        *)
(***************************************************************************)
EXTENDS RandLib
CONSTANTS MaxCalls, MaxT
Z == <<0, 0, 0, 0>>
Small(r) == <<RndSeq(<<0, 0, 1, 1, -1, 2, -2, 3>>), 0, 0, 0>>
Wide(r) == IF Rnd(1..5) = 1 THEN Z ELSE <<Rnd(-7..7), Rnd({0, 40, 90, 200, -3, -60, -150, -700}), Rnd(-5..5), Rnd({0, -1, -30, -120, -300, 64})>>
\* near the limits of 53 bits, with ties
Edge(r) == IF Rnd(1..6) = 1 THEN Z ELSE <<Rnd({1, 1, 3, 5, -1, -3, 7}), RndSeq(<<53, 53, 54, 55, 56, 0>>), Rnd({1, -1, 3, -3, 2, 5}), RndSeq(<<0, 0, 0, 1, -1, -5, -60>>)>>
Num(k) == CASE k = "exact" -> (IF Rnd(1..3) = 1 THEN Small(0) ELSE Wide(0))
            [] k = "edge" -> (IF Rnd(1..2) = 1 THEN Small(0) ELSE Edge(0))
            [] OTHER -> Small(0)
Dbl(r) == <<Rnd(-1000..1000), Rnd({0, 0, 3, -3, 30, -30}), 0, 0>>
NMat(k, r, c) == Mk(r, c, LAMBDA i, j : Num(k))
DMat(r, c) == Mk(r, c, LAMBDA i, j : Dbl(0))
Off(r) == RndSeq(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, -1>>)
Pos(x) == IF x < 0 THEN 0 ELSE x
Call(k, n, q) ==
  LET fu == TLCEval(RndSeq(<<"np", "mp", "mp">>)) fx == TLCEval(RndSeq(<<"none", "np", "mp", "mp">>))
      T == TLCEval(RndSeq(<<0, 1, 2, 3, 3, MaxT, MaxT>>))
      ru == TLCEval(Pos(q + Off(0))) rx == TLCEval(Pos(n + Off(0))) cx == TLCEval(IF Rnd(1..20) = 1 THEN 2 ELSE 1)
      bad == TLCEval(Rnd(1..30) = 1)
  IN [op |-> "sim", exact |-> IF k = "exact" THEN 1 ELSE IF Rnd(1..4) = 1 THEN 1 ELSE 0,
      fu |-> IF bad THEN Rnd({"list", "ndarray"}) ELSE fu, u |-> IF fu = "np" THEN DMat(ru, T) ELSE NMat(k, ru, T),
      fx |-> fx, x0 |-> IF fx = "none" THEN DMat(n, 1) ELSE IF fx = "np" THEN DMat(rx, cx) ELSE NMat(k, rx, cx),
      prec |-> RndSeq(<<53, 53, 20, 2, 64, 200, 1000>>)]
Draw(r) ==
  LET k == TLCEval(RndSeq(<<"exact", "edge">>))
      n == TLCEval(RndSeq(IF k = "exact" THEN <<0, 1, 2, 2, 3>> ELSE <<0, 1, 1, 2, 2>>)) p == TLCEval(RndSeq(<<1, 1, 2>>)) q == TLCEval(RndSeq(<<1, 1, 2>>))
      ka == IF k = "edge" /\ Rnd(1..3) # 1 THEN "small" ELSE k
  IN [k |-> k, sys |-> [A |-> NMat(ka, n, n), B |-> NMat(k, n, q), C |-> NMat("small", p, n), D |-> NMat("small", p, q)],
      h |-> TLCEval([i \in 1..Rnd(1..MaxCalls) |-> Call(k, n, q)])]
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
