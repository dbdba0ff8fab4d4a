-------------------------------- MODULE GenRng --------------------------------
(***************************************************************************)
(* Random histories of the generators: the stream drawn from or seeded by  *)
(* others, filters generated with a seed or without, again from the name   *)
(* they carry, and iterators pulled piece by piece and interleaved.        *)
(***************************************************************************)
EXTENDS RandLib, Integers
CONSTANTS MaxLen
\* few different seeds and parameters, so that generations repeat
Seeds == <<0, 0, 0, 1, 2, 7, 623203621>>
Seed(r) == IF Rnd(1..4) = 1 THEN << >> ELSE <<RndSeq(Seeds)>>
NRange(r, lo, hi) == LET a == TLCEval(Rnd(lo..hi)) IN TLCEval(<<a, a + Rnd(1..3)>>)
Ranges == <<<<1, 2>>, <<1, 5>>, <<2, 4>>, <<2, 3>>>>
Orders == <<<<1, 5>>, <<2, 4>>, <<3, 4>>, <<2, 3>>, <<1, 3>>, <<5, 8>>>>
Forms == <<"", "lowpass", "highpass", "bandpass", "bandstop">>
FilterArgs(r) == [n |-> RndSeq(<<1, 1, 2, 3, 4, 6>>), p |-> Rnd(1..3), q |-> Rnd(1..3)]
\* frequencies in hundredths, gains in dB
\* the ranges of the two frequencies of a band: apart, overlapping, one in the other
Apart == <<<< <<10, 30>>, <<50, 80>> >>, << <<20, 21>>, <<60, 62>> >>, << <<10, 30>>, <<60, 62>> >>>>
Overlap == Apart \o <<<< <<10, 60>>, <<20, 70>> >>, << <<30, 50>>, <<30, 50>> >>, << <<10, 90>>, <<30, 50>> >>>>
WithBand(a, w) == [f \in DOMAIN a \cup {"W1", "W2"} |-> IF f = "W1" THEN w[1] ELSE IF f = "W2" THEN w[2] ELSE a[f]]
ButterArgs(r) == WithBand([n |-> RndSeq(Orders), form |-> RndSeq(Forms), even |-> Rnd(0..1), Wc |-> RndSeq(<<<<10, 80>>, <<40, 45>>>>)], TLCEval(RndSeq(Overlap)))
\* (quantized frequencies may meet when the ranges overlap)
EllipArgs(r) == LET qt == TLCEval(RndSeq(<<0, 0, 64, 1000>>)) IN
  WithBand([n |-> RndSeq(Orders), form |-> RndSeq(Forms), rp |-> RndSeq(<<<<1, 3>>, <<1, 2>>>>), rs |-> RndSeq(<<<<30, 60>>, <<40, 41>>>>), quant |-> qt,
            Wc |-> RndSeq(<<<<10, 80>>, <<40, 45>>>>)], TLCEval(RndSeq(IF qt = 0 THEN Overlap ELSE Apart)))
GabArgs(r) == [form |-> RndSeq(<<"", "lowpass", "highpass", "bandpass", "bandstop">>)]
SSArgs(r) == [n |-> NRange(0, 1, 4), p |-> RndSeq(Ranges), q |-> RndSeq(Ranges), stable |-> Rnd(0..1), one |-> Rnd(0..3), mask |-> RndSeq(<<100, 100, 90, 50, 5>>), dmask |-> RndSeq(<<100, 80, 5>>), dzero |-> RndSeq(<<0, 50, 100>>)]
TFArgs(r) == [order |-> RndSeq(<<<<1, 3>>, <<2, 2>>, <<5, 10>>, <<1, 1>>, <<3, 5>>>>)]
Args(fn) == CASE fn = "filter" -> FilterArgs(0) [] fn = "butter" -> ButterArgs(0) [] fn = "ellip" -> EllipArgs(0) [] fn = "gab" -> GabArgs(0)
IterArgs(fn) == CASE fn = "filter" -> [n |-> RndSeq(<<<<1, 4>>, <<2, 3>>, <<3, 6>>>>), p |-> RndSeq(Ranges), q |-> RndSeq(Ranges), type |-> RndSeq(<<"SISO", "SIMO", "MISO", "MIMO", "all", "all">>)]
                  [] fn \in {"ss", "ssmp"} -> SSArgs(0)
                  [] fn \in {"tf", "tfmp"} -> TFArgs(0)
                  [] OTHER -> Args(fn)
Gens == <<"filter", "filter", "butter", "ellip", "gab">>
Iters == <<"filter", "filter", "butter", "ellip", "gab", "ss", "ssmp", "tf", "tfmp">>
\* a filter generated before, to do again with the same arguments
Op(args, ni, na) ==
  LET w == TLCEval(Rnd(1..20)) IN
  CASE w = 1 -> [op |-> "seed", s |-> RndSeq(Seeds)]
    [] w = 2 -> [op |-> "draw", k |-> Rnd(1..5)]
    [] w <= 8 \/ (w > 16 /\ na = 0) \/ (w > 10 /\ w <= 15 /\ ni = 0) -> (LET f == TLCEval(RndSeq(Gens)) IN [op |-> "gen", fn |-> f, args |-> RndSeq(args[f]), seed |-> Seed(0)])
    [] w <= 10 -> (LET f == TLCEval(RndSeq(Iters)) IN [op |-> "start", fn |-> f, args |-> IterArgs(f), number |-> RndSeq(<<0, 1, 2, 3, 5>>), seeded |-> Rnd(0..2)])
    [] w <= 15 -> [op |-> "pull", i |-> Rnd(1..ni), k |-> Rnd(1..3)]
    [] w = 16 -> [op |-> "default", fn |-> RndSeq(Gens), seed |-> Seed(0)]
    [] OTHER -> [op |-> "again", j |-> Rnd(0..99)]
RECURSIVE Walk(_, _, _, _, _)
Walk(args, ni, na, hs, len) ==
  IF len = 0 THEN hs
  ELSE LET o == TLCEval(Op(args, ni, na)) IN
       Walk(args, IF o.op = "start" THEN ni + 1 ELSE ni, IF o.op = "gen" THEN na + 1 ELSE na, Append(hs, o), len - 1)
\* and sometimes a long iterator, for which every type should be seen
Long(r) == LET f == TLCEval(RndSeq(<<"filter", "butter", "ellip">>)) IN
  <<[op |-> "start", fn |-> f, args |-> TLCEval([IterArgs(f) EXCEPT !["n"] = <<2, 4>>]), number |-> 24, seeded |-> Rnd(0..2)]>>
LongAll(r) == <<[op |-> "start", fn |-> "filter", args |-> [n |-> <<1, 3>>, p |-> <<2, 4>>, q |-> <<2, 4>>, type |-> "all"], number |-> 24, seeded |-> Rnd(0..2)]>>
Draw(r) == LET args == TLCEval([f \in {"filter", "butter", "ellip", "gab"} |-> TLCEval(<<Args(f), Args(f)>>)])
               k == TLCEval(Rnd(1..8))
               h == TLCEval(IF k = 1 THEN Long(0) ELSE IF k = 2 THEN LongAll(0) ELSE << >>) IN
           h \o Walk(args, Len(h), 0, << >>, Rnd(6..MaxLen))
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
