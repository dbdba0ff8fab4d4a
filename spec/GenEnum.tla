-------------------------------- MODULE GenEnum --------------------------------
(***************************************************************************)
(* Random histories: registrations, filters, enumerations pulled piece by  *)
(* piece and interleaved, look-ups and direct constructions.               *)
(***************************************************************************)
EXTENDS RandLib, Integers
CONSTANTS MaxLen
Names == <<"DFI", "DFII", "dSS", "LGS", "LCW", "rhoDFII">>
Mine == <<"S1", "S2", "S3">>
Wrong == <<"dfi", "DF", "DFIII", "Direct Form I", "State-Space", "", "S9", "rhoDFI", "dss", "DFI ">>
OptPool == << [n |-> "a", v |-> <<"1", "2">>], [n |-> "b", v |-> <<"x", "y", "z">>], [n |-> "c", v |-> <<"0">>], [n |-> "d", v |-> <<"5", "4">>] >>
Opts(r) == LET k == TLCEval(Rnd(0..3)) pm == TLCEval(Rnd(Permutations(1..4))) IN TLCEval([i \in 1..k |-> OptPool[pm[i]]])
Rule(r) == RndSeq(<< <<"all", "", "">>, <<"all", "", "">>, <<"none", "", "">>, <<"siso", "", "">>, <<"mimo", "", "">>, <<"stable", "", "">>, <<"opt", "a", "2">>, <<"opt", "b", "x">>, <<"opt", "d", "4">>, <<"opt siso", "b", "y">>, <<"opt siso", "d", "5">> >>)
Reg(r) == [op |-> "reg", name |-> RndSeq(Mine), opts |-> Opts(0), rule |-> Rule(0)]
Filt(r) ==
  LET k == TLCEval(RndSeq(<<"tf", "tf", "ss", "ss", "butter", "sstf">>)) siso == TLCEval(k # "ss" \/ Rnd(1..2) = 1) IN
  [op |-> "filt", k |-> k, n |-> IF k = "butter" THEN Rnd(1..3) ELSE RndSeq(<<0, 1, 1, 2, 2, 3>>), p |-> IF siso THEN 1 ELSE Rnd(1..2), q |-> IF siso THEN 1 ELSE Rnd(1..3), stable |-> k = "butter" \/ Rnd(1..3) # 1,
   seed |-> Rnd(1..100000)]
Op(nf, ni) ==
  LET w == TLCEval(Rnd(1..20)) f == TLCEval(Rnd(1..nf)) IN
  CASE w <= 2 -> Reg(0)
    [] w <= 4 -> Filt(0)
    [] w <= 8 \/ (w <= 14 /\ ni = 0) -> [op |-> "start", f |-> f, api |-> RndSeq(<<"real", "real", "opts">>)]
    [] w <= 14 -> [op |-> "pull", i |-> Rnd(1..ni), k |-> Rnd(1..9)]
    [] w <= 16 -> [op |-> "get", name |-> RndSeq(Names \o Mine \o Wrong)]
    [] w <= 18 -> [op |-> "accept", f |-> f, name |-> RndSeq(Names \o Mine), pick |-> TLCEval([i \in 1..4 |-> Rnd(0..3)])]
    [] w = 19 /\ Rnd(1..2) = 1 -> [op |-> "rand", number |-> Rnd(0..2), n |-> RndSeq(<<<<1, 3>>, <<2, 3>>>>), p |-> RndSeq(<<<<1, 3>>, <<2, 3>>>>), q |-> RndSeq(<<<<1, 3>>, <<1, 2>>>>), type |-> RndSeq(<<"all", "SISO", "MIMO", "SISO">>), seeded |-> Rnd(0..1)]
    [] OTHER -> [op |-> "make", f |-> f, name |-> RndSeq(<<"DFI", "DFII", "dSS">> \o Mine), pick |-> TLCEval([i \in 1..4 |-> Rnd(0..3)]), api |-> RndSeq(<<"method", "call", "name">>), named |-> Rnd(0..1)]
RECURSIVE Walk(_, _, _, _)
Walk(nf, ni, hs, len) ==
  IF len = 0 THEN hs
  ELSE LET o == TLCEval(IF nf = 0 THEN Filt(0) ELSE Op(nf, ni)) IN
       Walk(IF o.op = "filt" THEN nf + 1 ELSE nf, IF o.op = "start" THEN ni + 1 ELSE ni, Append(hs, o), len - 1)
Draw(r) == (IF Rnd(1..2) = 1 THEN <<Reg(0)>> ELSE << >>) \o Walk(0, 0, << >>, Rnd(5..MaxLen))
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
