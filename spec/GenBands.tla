-------------------------------- MODULE GenBands --------------------------------
(***************************************************************************)
(* Random gabarits (any bands, or those of a shape that can be designed),  *)
(* and what is asked of them.  Gains are in quarters of dB, frequencies in *)
(* 1/fd Hz; f2 = -1: up to the half of the sampling frequency.             *)
(***************************************************************************)
EXTENDS RandLib, Integers, Randomization
Gain(r) == RndSeq(<<-80, -20, -4, 0, 0, 0, 1, 3, 8, -7, -160, -321>>)
AnyBands(r) ==
  LET Fs == TLCEval(RndSeq(<<0, 48000, 44100, 1000, 7>>)) fd == IF Fs = 0 THEN 64 ELSE IF Fs = 7 THEN 8 ELSE 1
      top == IF Fs = 0 THEN 64 ELSE (Fs * fd) \div 2 n == TLCEval(Rnd(0..5))
      pts == TLCEval(SortSeq(SetToSeq(RandomSubset(2 * n, 0..top)), LAMBDA a, b : a < b))
      pm == TLCEval(Rnd(Permutations(1..n)))
      touch == TLCEval(Rnd(1..4) = 1)
      b == TLCEval([i \in 1..n |-> [f1 |-> IF touch /\ i > 1 THEN pts[2 * i - 2] ELSE pts[2 * i - 1], f2 |-> IF i = n /\ Rnd(1..2) = 1 THEN -1 ELSE pts[2 * i], g |-> IF Rnd(1..2) = 1 THEN <<Gain(0)>> ELSE <<Gain(0), Gain(0)>>]])
  IN [Fs |-> Fs, fd |-> fd, bs |-> TLCEval([i \in 1..n |-> b[pm[i]]]), drop |-> IF n > 0 THEN RndSeq(<<0, 0, 0, 0, 0, 0, 1, 2>>) ELSE 0]
\* shapes with wide transitions: edges at multiples of 1/20 of the half of the sampling frequency
Shapes == <<"lowpass", "highpass", "bandpass", "bandstop">>
Designs(r) ==
  LET Fs == TLCEval(RndSeq(<<0, 48000, 1000, 44100>>)) fd == IF Fs = 0 THEN 64 ELSE 1
      at(k) == IF Fs = 0 THEN (64 * k) \div 20 ELSE (Fs * k) \div 40
      sh == TLCEval(RndSeq(Shapes))
      \* pass gains: integers in dB, with an integer centre
      c == TLCEval(RndSeq(<<0, 0, -3, 5, -1, 10>>)) wd == TLCEval(Rnd(2..4)) pg == <<4 * (c - wd), 4 * (c + wd)>>
      sg == TLCEval(4 * RndSeq(<<c - wd - 15, c - wd - 30, c - wd - 40>>)) sg0 == TLCEval(IF Rnd(1..3) = 1 /\ c - wd > 0 THEN 0 ELSE sg)
      two == IF sh \in {"lowpass", "highpass"} THEN
               LET k == TLCEval(Rnd(3..12)) IN TLCEval(<<[f1 |-> 0, f2 |-> at(k), g |-> IF sh = "lowpass" THEN pg ELSE <<sg0>>], [f1 |-> at(k + Rnd(3..6)), f2 |-> -1, g |-> IF sh = "lowpass" THEN <<sg0>> ELSE pg]>>)
             ELSE LET k == TLCEval(Rnd(2..4)) m == TLCEval(k + Rnd(3..4)) o == TLCEval(m + Rnd(2..3)) q == TLCEval(o + Rnd(3..4)) a == IF sh = "bandpass" THEN <<sg>> ELSE pg b == IF sh = "bandpass" THEN pg ELSE <<sg>>
                      \* sometimes different gains on the two sides
                      a2 == TLCEval(IF Rnd(1..2) = 1 THEN (IF sh = "bandpass" THEN <<sg - 20>> ELSE IF Rnd(1..2) = 1 THEN <<pg[1], pg[2] - 4>> ELSE <<pg[1] - 4, pg[2]>>) ELSE a)
                      first == TLCEval(Rnd(1..2) = 1)
                  IN TLCEval(<<[f1 |-> 0, f2 |-> at(k), g |-> IF first THEN a2 ELSE a], [f1 |-> at(m), f2 |-> at(o), g |-> b], [f1 |-> at(q), f2 |-> -1, g |-> IF first THEN a ELSE a2]>>)
      pm == TLCEval(Rnd(Permutations(1..Len(two))))
  IN [Fs |-> Fs, fd |-> fd, bs |-> TLCEval([i \in 1..Len(two) |-> two[pm[i]]]), drop |-> 0]
Op(n) ==
  LET w == TLCEval(Rnd(1..10)) IN
  CASE w <= 4 -> [op |-> "sub", i |-> Rnd(0..9), g |-> Gain(0)]
    [] w <= 6 -> [op |-> "rect", i |-> Rnd(0..9), db |-> Rnd(0..1), min |-> -200]
    [] w = 7 -> [op |-> "badsub", i |-> Rnd(0..9)]
    [] OTHER -> [op |-> "margin", i |-> Rnd(0..9), g |-> RndSeq(<<0, 1, 2, -3, 4>>)]
Design(r) == [op |-> "design", ftype |-> RndSeq(<<"butter", "cheby1", "cheby2", "ellip", "">>), margin |-> RndSeq(<<0, 0, 4>>), centered |-> Rnd(0..1)]
Draw(r) == IF Rnd(1..2) = 1 THEN <<[op |-> "make", kind |-> "any", g |-> AnyBands(0)]>> \o [i \in 1..Rnd(0..4) |-> Op(0)] \o (IF Rnd(1..6) = 1 THEN <<Design(0)>> ELSE << >>)
           ELSE IF Rnd(1..8) = 1 THEN <<[op |-> "random", seed |-> Rnd(0..100000)]>>
           ELSE <<[op |-> "make", kind |-> "design", g |-> Designs(0)]>> \o [i \in 1..Rnd(1..3) |-> IF Rnd(1..4) = 1 THEN Op(0) ELSE Design(0)]
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
