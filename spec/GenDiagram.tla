------------------------------ MODULE GenDiagram ------------------------------
(***************************************************************************)
(* Random diagrams: subsystems nested in any way, any numbers of ports,    *)
(* gains (also chained, also given by name), sums of any signs, delays of  *)
(* any length, every destination port fed by any source of its subsystem.  *)
(* Loops go through delays, except in the "any" diagrams.                  *)
(***************************************************************************)
EXTENDS RandLib, Integers
CONSTANTS MaxBlocks
BlkG(k, par, port, num, sc, name, sg, n) == [k |-> k, par |-> par, port |-> port, num |-> num, sc |-> sc, name |-> name, sg |-> sg, n |-> n]
Nums == <<1, -1, 3, -3, 5, -5, 7, 2, -2, 0>>
Signs(r) == RndTo(RndSeq(<<1, 2, 2, 2, 3, 3, 4>>), <<1, 1, -1>>)
Inner(par) ==
  LET w == TLCEval(Rnd(1..20)) IN
  CASE w <= 6 -> BlkG("gain", par, 0, RndSeq(Nums), Rnd(0..2), RndSeq(<<"", "", "k", "K1">>), << >>, 0)
    [] w <= 13 -> BlkG("sum", par, 0, 0, 0, "", Signs(0), 0)
    [] OTHER -> BlkG("delay", par, 0, 0, 0, "", << >>, RndSeq(<<1, 1, 1, 1, 1, 2, 3>>))
Ports(k, par, n) == LET pm == TLCEval(Rnd(Permutations(1..n))) IN TLCEval([i \in 1..n |-> BlkG(k, par, pm[i], 0, 0, "", << >>, 0)])
\* the boxes first (1..ns), then the ports of each scope, then the other blocks
DrawBlocks(ns, flat) ==
  LET boxes == TLCEval([i \in 1..ns |-> BlkG("sub", Rnd(0..(IF flat THEN 0 ELSE i - 1)), 0, 0, 0, "", << >>, 0)])
      ports == FoldLeft(LAMBDA a, s : a \o Ports("in", s, Rnd(1..2)) \o Ports("out", s, RndSeq(<<1, 1, 2>>)), << >>, Idx(ns))
      others == TLCEval([i \in 1..Rnd(1..MaxBlocks) |-> Inner(Rnd(0..ns))]) IN
  TLCEval(boxes \o ports \o others \o Ports("in", 0, RndSeq(<<1, 1, 2, 3>>)) \o Ports("out", 0, RndSeq(<<1, 1, 2, 3>>)))
\* destination ports of a block, source ports of a block
Count(b, i, k) == Cardinality({j \in 1..Len(b) : b[j].k = k /\ b[j].par = i})
NDst(b, i) == CASE b[i].k = "sub" -> Count(b, i, "in") [] b[i].k = "sum" -> Len(b[i].sg) [] b[i].k = "in" -> 0 [] OTHER -> 1
NSrc(b, i) == CASE b[i].k = "sub" -> Count(b, i, "out") [] b[i].k = "out" -> 0 [] OTHER -> 1
\* the sources of block i: those of its scope, of smaller rank when the loops must have a delay
Sources(b, rank, i, any) ==
  LET S == {j \in 1..Len(b) : b[j].par = b[i].par /\ NSrc(b, j) > 0 /\ (any \/ b[i].k \in {"delay", "out"} \/ b[j].k \in {"in", "delay"} \/ rank[j] < rank[i])} IN S
DrawWires(b, any) ==
  LET rank == TLCEval(Rnd(LET n == Len(b) IN {[i \in 1..n |-> (i * a + c) % 61] : a \in {1, 5, 17, 29, 44}, c \in {0, 7, 23, 40, 55}})) IN
  FoldLeft(LAMBDA a, i : FoldLeft(LAMBDA a2, p : LET s == TLCEval(Rnd(Sources(b, rank, i, any))) IN Append(a2, <<s, TLCEval(Rnd(1..NSrc(b, s))), i, p>>), a, Idx(NDst(b, i))), << >>, Idx(Len(b)))
DrawD(ns, flat, any) == LET b == TLCEval(DrawBlocks(ns, flat)) w == TLCEval(DrawWires(b, any)) IN [b |-> b, w |-> w]
Draw(r) == [op |-> "diag", d |-> TLCEval(DrawD(RndSeq(<<0, 0, 0, 1, 1, 2, 3>>), Rnd(1..3) = 1, Rnd(1..5) = 1))]
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
