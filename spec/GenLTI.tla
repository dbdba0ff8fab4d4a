------------------------------- MODULE GenLTI -------------------------------
(***************************************************************************)
(* Random histories of operations on systems (see LTI), as the sequences   *)
(* of calls the driver makes.  Only the shapes of the objects are kept     *)
(* here, so that most of the calls are legal and the systems stay small.   *)
(***************************************************************************)
EXTENDS RandLib
CONSTANTS Profile,     \* "ss", "tf", "conv", "mp" and "tfx": transfer functions, some of them very close
                       \* to one another, with operations that are exact in double; "convx": doubles
                       \* that use all their digits, with conversions that are exact
          MaxLen, OrderCap
Z == <<0, 0, 0, 0>>
Small(v) == <<v, 0, 0, 0>>
Half(v) == <<v, -1, 0, 0>>
Wide(r) == IF Rnd(1..5) = 1 THEN Z ELSE <<Rnd(-7..7), Rnd({0, 40, 90, 200, -3, -60, -150, -700}), Rnd(-5..5), Rnd({0, -1, -30, -120, -300, 64})>>
\* 26 leading bits and 26 (or fewer) trailing ones: always a double
Full(r) == LET e == TLCEval(RndSeq(<<0, -26, -30, -25, 5, -200, 300, -900, 800>>)) IN
           CASE Rnd(1..6) = 1 -> Small(RndSeq(<<0, 1, -1, 3>>))
             [] OTHER -> <<RndSeq(<<1, -1>>) * Rnd(33554432..67108863), e, RndSeq(<<1, -1>>) * Rnd(0..67108863), e - 26>>
IntPool == <<0, 0, 1, -1, 2, -2, 3>>
Num(mp) == CASE Profile = "mp" /\ mp = 1 -> (IF Rnd(1..3) = 1 THEN Small(RndSeq(IntPool)) ELSE Wide(0))
            [] Profile = "ss" -> (IF Rnd(1..4) = 1 THEN Half(RndSeq(IntPool)) ELSE Small(RndSeq(IntPool)))
            [] Profile = "convx" -> Full(0)
            [] OTHER -> Small(RndSeq(IntPool))
NMat(mp, r, c) == Mk(r, c, LAMBDA i, j : Num(mp))
\* some rows of A and B are null, so that there is something to simplify
NullRows(r) == {i \in 1..r : Rnd(1..3) = 1}
Zero(m, rows) == Mk(m.r, m.c, LAMBDA i, j : IF i \in rows THEN Z ELSE m.e[i][j])
Desc(k, mp, n, p, q) == [k |-> k, mp |-> mp, n |-> n, p |-> p, q |-> q]

NewSS(mp) == LET n == RndSeq(<<0, 1, 1, 2, 2, 3>>)
                 p == IF Profile = "conv" /\ Rnd(1..5) # 1 THEN 1 ELSE Rnd(1..2)
                 q == IF Profile = "conv" /\ Rnd(1..5) # 1 THEN 1 ELSE Rnd(1..2)
                 bad == TLCEval(RndSeq(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4>>))      \* a size that does not fit
                 nr == TLCEval(IF Profile = "ss" /\ Rnd(1..2) = 1 THEN NullRows(n) ELSE {})
             IN [d |-> Desc("ss", mp, n, p, q),
                 o |-> [op |-> "newss", mp |-> mp, A |-> Zero(NMat(mp, n, n + (IF bad = 4 THEN 1 ELSE 0)), nr), B |-> Zero(NMat(mp, n + (IF bad = 1 THEN 1 ELSE 0), q), IF Rnd(1..4) = 1 THEN {} ELSE nr), C |-> NMat(mp, p, n + (IF bad = 2 THEN 1 ELSE 0)), D |-> NMat(mp, p + (IF bad = 3 THEN 1 ELSE 0), q), bad |-> bad # 0]]
Leads == IF Profile \in {"mp", "convx"} THEN <<1>> ELSE IF Profile = "tfx" THEN <<1, 1, 2, -1, -2, 4>> ELSE <<1, 1, 1, 2, -1, -2, 4, 3>>
NewTF(mp) == LET n == TLCEval(RndSeq(<<0, 1, 1, 2, 2, 3>>)) m == TLCEval(IF Rnd(1..3) = 1 THEN Rnd(0..3) ELSE n)
                 lead == IF Rnd(1..25) = 1 THEN 0 ELSE RndSeq(Leads)
             IN [d |-> Desc("tf", mp, IF n > m THEN n ELSE m, 1, 1),
                 o |-> [op |-> "newtf", mp |-> mp, num |-> TLCEval([k \in 1..(m + 1) |-> IF Profile = "convx" /\ k = 1 /\ n + m > 0 THEN Z ELSE Num(mp)]),
                        den |-> TLCEval(<<Small(lead)>> \o [k \in 1..n |-> Num(mp)]), row |-> Rnd({0, 1}), bad |-> lead = 0]]
\* a transfer function whose coefficients differ from those of a previous one by a few 2^-30
\* (the results are not reused, and there is at most one of these operands: the doubles are exact)
News(hs) == {k \in 1..Len(hs) : hs[k].op = "newtf" /\ ~hs[k].bad}
Move(v, first) == TLCEval([k \in 1..Len(v) |-> IF (k = 1 /\ first) \/ Rnd(1..2) = 1 THEN v[k] ELSE <<v[k][1], v[k][2], Rnd({-1, 1}), RndSeq(<<-30, -30, -24, -18>>)>>])
NearTF(hs) == LET b == hs[TLCEval(Rnd(News(hs)))]
                  nu == TLCEval(Rnd(1..3))
              IN [d |-> [Desc("tf", 0, IF Len(b.num) > Len(b.den) THEN Len(b.num) - 1 ELSE Len(b.den) - 1, 1, 1) EXCEPT !.mp = 7],
                  o |-> [b EXCEPT !.den = Move(b.den, TRUE), !.num = IF nu = 1 THEN b.num ELSE IF nu = 2 THEN Move(b.num, FALSE) ELSE TLCEval([k \in 1..Len(b.num) |-> Num(0)])]]
NewX(hs) == IF \E k \in News(hs) : hs[k].den[1][3] = 0 /\ Rnd(1..3) # 1 THEN NearTF(SelectSeq(hs, LAMBDA o : o.op = "newtf" /\ (\A v \in {o.num, o.den} : \A k \in 1..Len(v) : v[k][3] = 0))) ELSE NewTF(0)
New(r) == CASE Profile = "ss" -> NewSS(0)
            [] Profile = "tf" -> NewTF(0)
            [] Profile \in {"conv", "convx"} -> (IF Rnd({0, 1}) = 0 THEN NewSS(Rnd({0, 0, 1})) ELSE NewTF(Rnd({0, 0, 1})))
            [] Profile = "mp" -> (IF Rnd(1..3) = 1 THEN NewTF(1) ELSE NewSS(RndSeq(<<0, 1, 1, 1>>)))

Skip == [skip |-> 0]
IsSkip(x) == "skip" \in DOMAIN x
SelSeq(n) == LET len == Rnd(1..(n + 1)) IN TLCEval([k \in 1..len |-> Rnd(0..(n - 1))])
Form(r) == Rnd({"int", "slice", "list", "tuple"})
SelFor(f, n) == CASE f = "int" -> <<Rnd(0..(n - 1))>>
                  [] f = "slice" -> (LET a == Rnd(0..(n - 1)) b == Rnd(a..(n - 1)) IN TLCEval([k \in 1..(b - a + 1) |-> a + k - 1]))
                  [] OTHER -> SelSeq(n)
\* an operation on the objects described by hp, and the shape of its result
Pick1(hp) == Rnd(1..Len(hp))
Op(hp) ==
  LET i == TLCEval(Pick1(hp)) a == hp[i] IN
  CASE Profile = "ss" \/ (Profile = "mp" /\ a.k = "ss" /\ a.mp = 1 /\ Rnd(1..4) # 1) ->
         LET w == TLCEval(IF Profile = "mp" THEN RndSeq(<<"add", "sub", "add", "sub", "add", "sub", "badop">>) ELSE RndSeq(<<"badop", "mul", "mul", "mul", "add", "add", "sub", "sub", "pick", "pick", "simplify", "simil">>)) IN
         IF w \in {"mul", "add", "sub"}
         THEN LET fits == TLCEval({x \in 1..Len(hp) : hp[x].k = "ss" /\ hp[x].n + a.n <= OrderCap /\ IF w = "mul" THEN a.q = hp[x].p ELSE a.p = hp[x].p /\ a.q = hp[x].q})
                  anyone == TLCEval({x \in 1..Len(hp) : hp[x].k = "ss" /\ hp[x].n + a.n <= OrderCap})
                  pool == TLCEval(IF fits # {} /\ Rnd(1..6) # 1 THEN fits ELSE anyone)
              IN IF pool = {} THEN Skip
                 ELSE LET j == TLCEval(Rnd(pool)) b == hp[j] ok == j \in fits IN
                      [d |-> IF ok THEN <<Desc("ss", a.mp, a.n + b.n, a.p, IF w = "mul" THEN b.q ELSE a.q)>> ELSE << >>, o |-> [op |-> w, i |-> i, j |-> j, mixed |-> 0]]
         ELSE IF w = "badop" THEN [d |-> << >>, o |-> [op |-> "badop", i |-> i, w |-> RndSeq(IF Profile = "mp" THEN <<"add", "sub">> ELSE <<"mul", "add", "sub">>), v |-> RndSeq(<<"str", "list", "none">>)]]
         ELSE IF w = "pick"
         THEN LET f == TLCEval(Form(0)) g == TLCEval(IF Rnd(1..2) = 1 THEN f ELSE Form(0))
                  s == TLCEval(SelFor(f, a.p)) t == TLCEval(SelFor(g, a.q))
              IN [d |-> <<Desc("ss", a.mp, a.n, Len(s), Len(t))>>, o |-> [op |-> "pick", i |-> i, outs |-> s, ins |-> t, fo |-> f, fi |-> g]]
         ELSE IF w = "simplify" THEN [d |-> <<a>>, o |-> [op |-> "simplify", i |-> i]]       \* (the order may decrease)
         ELSE \* a signed and scaled permutation: its inverse is exact in double
              LET n == a.n
                  pm == TLCEval(Rnd(Permutations(1..n)))
                  T == Mk(n, n, LAMBDA x, y : IF pm[x] = y THEN RndSeq(<<1, 1, -1, 2, -4>>) ELSE 0)
              IN IF n \notin 1..5 THEN Skip ELSE [d |-> << >>, o |-> [op |-> "simil", i |-> i, T |-> TLCEval(T)]]
    [] Profile \in {"tf", "tfx"} ->
         LET w == TLCEval(RndSeq(<<"mul", "mul", "add", "add", "sub", "sub", "neg", "smul", "rsmul", "sadd", "rsadd", "ssub", "rssub", "bad">>)) IN
         IF w \in {"mul", "add", "sub"}
         THEN LET pool == TLCEval({x \in 1..Len(hp) : hp[x].n + a.n <= OrderCap /\ (hp[x].mp + a.mp < 14)}) IN
              IF pool = {} THEN Skip ELSE LET j == TLCEval(Rnd(pool)) IN [d |-> <<Desc("tf", 0, IF Profile = "tfx" THEN 1000 ELSE a.n + hp[j].n, 1, 1)>>, o |-> [op |-> w, i |-> i, j |-> j, mixed |-> 0]]
         ELSE IF w = "bad" THEN [d |-> << >>, o |-> [op |-> "badop", i |-> i, w |-> RndSeq(<<"mul", "add", "sub", "rmul", "radd", "rsub">>), v |-> RndSeq(<<"str", "list", "none">>)]]
         ELSE IF w = "neg" THEN [d |-> <<a>>, o |-> [op |-> "neg", i |-> i]]
         ELSE [d |-> <<a>>, o |-> [op |-> w, i |-> i, x |-> RndSeq(<<0, 1, -1, 2, -3, 5>>), t |-> RndSeq(<<"int", "float", "np">>)]]
    [] OTHER ->
         LET to == TLCEval(CASE Profile = "convx" -> (IF a.k = "tf" /\ a.mp = 0 THEN RndSeq(<<"ctrl", "obs", "mp", "mp">>)
                                                      ELSE IF a.k = "tf" THEN RndSeq(<<"double", "double", "ss">>)
                                                      ELSE IF a.mp = 1 THEN "double" ELSE "mp")
                             [] a.k = "tf" /\ a.mp = 0 -> RndSeq(<<"ctrl", "obs", "filter", "mp", "ctrl", "obs", "filter", "mp", "badform">>)
                             [] a.k = "ss" /\ a.mp = 0 -> (IF Profile = "mp" THEN "mp" ELSE RndSeq(<<"tf", "filter", "mp">>))
                             [] a.k = "tf" -> (IF Profile = "mp" THEN "ss" ELSE RndSeq(<<"double", "ss", "ss">>))
                             [] OTHER -> (IF Profile = "mp" THEN "tf" ELSE RndSeq(<<"double", "tf", "tf">>)))
             siso == a.p = 1 /\ a.q = 1
             k2 == IF to \in {"ctrl", "obs", "ss"} THEN "ss" ELSE IF to = "tf" THEN "tf" ELSE IF to = "filter" THEN (IF a.k = "tf" THEN "ss" ELSE "tf") ELSE a.k
             m2 == IF to = "mp" THEN 1 ELSE IF to = "double" THEN 0 ELSE a.mp
             prec == IF Profile = "mp" THEN 20000 ELSE RndSeq(<<0, 53, 60, 100, 200>>)
         IN [d |-> IF (to \in {"tf", "filter"} /\ a.k = "ss" /\ ~siso) \/ to = "badform" THEN << >> ELSE <<Desc(k2, m2, a.n, a.p, a.q)>>, o |-> [op |-> "conv", i |-> i, to |-> to, prec |-> prec]]
RECURSIVE Walk(_, _, _)
Walk(hp, hs, len) ==
  IF len = 0 THEN hs
  ELSE IF Len(hp) = 0 \/ (Len(hp) < 4 /\ Rnd(1..4) = 1)
  THEN LET x == TLCEval(IF Profile = "tfx" THEN NewX(hs) ELSE New(0)) IN Walk(IF x.o.bad THEN hp ELSE Append(hp, x.d), Append(hs, x.o), len - 1)
  ELSE IF Profile = "mp" /\ Rnd(1..6) = 1 THEN Walk(hp, Append(hs, [op |-> "prec", v |-> RndSeq(<<2, 10, 53, 64, 300>>)]), len - 1)
  ELSE LET x == TLCEval(Op(hp)) IN
       IF IsSkip(x) THEN Walk(hp, hs, len - 1) ELSE Walk(hp \o x.d, Append(hs, x.o), len - 1)
Draw(r) == Walk(<< >>, << >>, Rnd(3..MaxLen))
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
