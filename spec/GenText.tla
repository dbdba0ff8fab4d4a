------------------------------- MODULE GenText -------------------------------
(* variable names with options, lists of names, sums of products *)
EXTENDS RandLib
NamePool == <<"u", "x", "t", "v", "xp", "in", "state">>
Bool(n) == Rnd(1..n) = 1
Name(r) == LET s == Bool(2) IN
  [kind |-> "name", nm |-> RndSeq(NamePool), idx |-> Rnd({-1, 0, 1, 2, 3, 12}), sur |-> IF s THEN RndSeq(<<"u", "v", "w", "foo", "x">>) ELSE "",
   sidx |-> IF s THEN Rnd({-1, 0, 1, 3, 10}) ELSE -1, sh |-> IF s THEN Rnd(-3..2) ELSE 0]
Opt(r) == [ws |-> Rnd(BOOLEAN), shift |-> Rnd(-3..3), time |-> Rnd(BOOLEAN), suffix |-> RndSeq(<<"", "", "p", "bis">>), latex |-> Rnd(BOOLEAN)]
Sur(k) == [s |-> RndSeq(<<"u", "v", "w", "foo">>), i |-> Rnd({-1, 1, 2, 10}), sh |-> Rnd(-2..1)]
List(r) == LET n == Rnd({0, 1, 2, 3, 4, 11}) k == Rnd(1..5) IN
  [kind |-> "list", base |-> RndSeq(NamePool), n |-> n, style |-> k,
   surs |-> IF k = 1 THEN << >>
            ELSE LET m == IF k = 5 THEN Rnd({n + 1, n + 3, IF n > 1 THEN n - 1 ELSE n + 2}) ELSE n IN
                 TLCEval([i \in 1..m |-> IF k = 2 THEN [s |-> RndSeq(<<"u", "v", "w", "foo">>) \o ToString(i), i |-> -1, sh |-> 0] ELSE Sur(i)])]
\* constants m 2^e
Const(r) == LET k == Rnd(1..8) IN
  CASE k \in {1, 2} -> <<0, 0>> [] k = 3 -> <<1, 0>> [] k = 4 -> <<-1, 0>>
    [] k = 5 -> <<Rnd(-9..9), 0>> [] k = 6 -> <<Rnd(-1000..1000), Rnd(-4..0)>> [] k = 7 -> <<Rnd(-1000000..1000000), Rnd(-60..40)>>
    [] k = 8 -> <<Rnd(-99..99), RndSeq(<<-1074, -1060, -1030, -900, 900, 1010>>)>>     \* the smallest and the largest doubles
SopNames == <<"x1", "x2", "u", "t1", "t2", "y", "xk[0]", "u[1]", "x1(k)", "v(k-2)", "a-long-name", "$x_{1}(k)$", "x1(k+1)", "T12", "averyveryverylongname_of_variable_number">>
Sop(r) == LET n == Rnd({0, 1, 1, 2, 3, 5, 8}) IN
  [kind |-> "sop", cs |-> TLCEval([i \in 1..n |-> Const(i)]), vs |-> RndTo(n, SopNames), res |-> RndSeq(SopNames),
   assign |-> RndSeq(<<"<-", " =", "$\\leftarrow$", ":=">>), extra |-> IF Bool(8) THEN Rnd({1, 2}) ELSE 0]
\* results assigned to themselves, and nearly so
Self(r) == LET n == Rnd(1..3) i == Rnd(1..n) v == RndSeq(SopNames) c == Rnd(1..5) IN
  [kind |-> "sop", cs |-> TLCEval([k \in 1..n |-> IF k = i THEN (IF c = 5 THEN <<-1, 0>> ELSE <<1, 0>>) ELSE (IF c = 4 THEN <<1, 0>> ELSE <<0, 0>>)]),
   vs |-> TLCEval([k \in 1..n |-> IF k = i THEN v ELSE RndSeq(SopNames)]), res |-> v, assign |-> "<-", extra |-> 0]
CONSTANT What
Draw(r) == IF What = "sop" THEN (IF Rnd(1..4) = 1 THEN Self(r) ELSE Sop(r))
           ELSE LET k == Rnd(1..3) IN [v |-> TLCEval(IF k = 1 THEN List(r) ELSE Name(r)), os |-> TLCEval([i \in 1..3 |-> Opt(i)])]
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
