-------------------------------- MODULE GenMP --------------------------------
(***************************************************************************)
(* Random histories of calls to the multiprecision functions (see MPArith) *)
(***************************************************************************)
EXTENDS RandLib
CONSTANTS MaxLen
Z == <<0, 0, 0, 0>>
One == <<1, 0, 0, 0>>
Wide(r) == IF Rnd(1..6) = 1 THEN Z ELSE <<Rnd(-1000..1000), Rnd({0, 0, 1, 40, 53, 90, 200, 600, -3, -60, -150, -700}), Rnd(-1000..1000), Rnd({0, -1, -30, -52, -120, -300, 64, 500})>>
\* exactly a double
Dbl(r) == IF Rnd(1..6) = 1 THEN Z ELSE LET s == Rnd({0, 0, 3, -3, 300, -300, 900, -1000}) IN <<Rnd(-1000..1000), s, Rnd(-1000..1000), s - Rnd(0..40)>>
Low(r) == IF Rnd(1..3) = 1 THEN <<Rnd(-3..3), 0, 0, 0>> ELSE Wide(0)
Num(f) == CASE f = "np" -> Dbl(0) [] f = "MPF" -> (IF Rnd(1..2) = 1 THEN Dbl(0) ELSE Low(0)) [] OTHER -> Low(0)
NMat(f, r, c) == Mk(r, c, LAMBDA i, j : Num(f))
ULT(f, n) == Mk(n, n, LAMBDA i, j : IF i = j THEN One ELSE IF j < i THEN Num(f) ELSE Z)
Dim(r) == RndSeq(<<0, 1, 1, 2, 2, 2, 3, 3, 4>>)
D(f, sp, r, c) == [f |-> f, sp |-> sp, r |-> r, c |-> c]
Sps == <<"", "", "", "", "", "", "", "", "", "", "", "inf", "nan", "cplx">>
New(hp) ==
  LET f == TLCEval(RndSeq(<<"np", "mp", "mp", "MPF", "MPF">>))
      like == TLCEval({x \in 1..Len(hp) : hp[x].sp = ""})
      sq == TLCEval(Rnd(1..3) = 1)
      r == TLCEval(IF like # {} /\ Rnd(1..2) = 1 THEN hp[Rnd(like)].c ELSE Dim(0))
      c == TLCEval(IF sq THEN r ELSE Dim(0))
      from == TLCEval(RndSeq(<<"ndarray", "npm", "mpm">>))
      g == TLCEval(IF f = "MPF" /\ from # "mpm" THEN "np" ELSE f)
      sp == TLCEval(IF r = 0 \/ c = 0 THEN "" ELSE IF g = "mp" THEN RndSeq(Sps) ELSE IF Rnd(1..14) = 1 THEN Rnd({"inf", "nan"}) ELSE "")
      M == TLCEval(IF sq /\ Rnd(1..4) # 1 THEN ULT(g, r) ELSE NMat(g, r, c))
  IN [d |-> <<D(f, sp, r, c)>>, o |-> [op |-> "new", i |-> 1, j |-> 1, f |-> f, from |-> from, M |-> M, sp |-> sp]]
Skip == [skip |-> 0]
IsSkip(x) == "skip" \in DOMAIN x
Fam(f) == IF f = "MPF" THEN 1 ELSE 0
MaxDim == 6
Op(hp) ==
  LET i == TLCEval(Rnd(1..Len(hp))) a == hp[i]
      w == TLCEval(RndSeq(<<"add", "sub", "mul", "mul", "add", "sub", "mul", "inv", "inv", "padd", "psub", "pmul", "poly", "prod", "tomp", "tonp", "repr", "entry", "real", "wrap", "equal", "poke", "padd", "psub", "pmul", "pbad">>))
      bin == w \in {"add", "sub", "mul", "padd", "psub", "pmul", "equal"}
      \* the plain operators of MPFMatrix also take numpy and mpmath matrices
      fam == TLCEval({x \in 1..Len(hp) : Fam(hp[x].f) = Fam(a.f) \/ (a.f = "MPF" /\ w \in {"padd", "psub", "pmul"})})
      fits == TLCEval({x \in fam : IF w \in {"mul", "pmul"} THEN a.c = hp[x].r ELSE a.r = hp[x].r /\ a.c = hp[x].c})
      sq == TLCEval({x \in 1..Len(hp) : hp[x].r = hp[x].c})
      rs(f, r, c, sp) == IF sp = "" THEN <<D(f, "", r, c)>> ELSE << >>
      cols == TLCEval({x \in 1..Len(hp) : hp[x].f = "mp" /\ hp[x].c = 1 /\ hp[x].r \in 1..8})
  IN
  CASE bin -> IF a.f # "MPF" /\ w \in {"padd", "psub", "pmul", "equal"} THEN Skip
              ELSE LET j == TLCEval(Rnd(IF fits # {} /\ Rnd(1..7) # 1 THEN fits ELSE fam)) b == hp[j]
                       sp == IF a.sp # "" THEN a.sp ELSE b.sp
                       f == IF a.f = "MPF" THEN "MPF" ELSE "mp"
                   IN [d |-> IF w = "equal" \/ j \notin fits THEN << >> ELSE rs(f, a.r, IF w \in {"mul", "pmul"} THEN b.c ELSE a.c, sp),
                       o |-> [op |-> w, i |-> i, j |-> j, as |-> RndSeq(<<"MPF", "np", "mp">>)]]
    [] w = "pbad" -> [d |-> << >>, o |-> [op |-> "pbad", i |-> i, j |-> i, w |-> RndSeq(<<"padd", "psub", "pmul", "add", "sub", "mul">>), v |-> RndSeq(<<"float", "list", "str", "none">>)]]
    [] w = "inv" -> LET k == TLCEval(IF sq # {} /\ Rnd(1..8) # 1 THEN Rnd(sq) ELSE i) IN [d |-> << >>, o |-> [op |-> "inv", i |-> k, j |-> k]]
    [] w = "poly" -> IF cols = {} THEN Skip
                     ELSE LET x == TLCEval(Rnd(cols)) y == TLCEval(Rnd(cols)) IN
                          [d |-> IF hp[x].sp # "" \/ hp[y].sp # "" THEN << >> ELSE <<D("mp", "", hp[x].r + hp[y].r - 1, 1)>>, o |-> [op |-> "poly", i |-> x, j |-> y]]
    [] w = "prod" -> LET n == TLCEval(RndSeq(<<0, 1, 2, 3, 4>>)) IN
                     [d |-> IF n = 0 THEN << >> ELSE << >>, o |-> [op |-> "prod", i |-> i, j |-> i, s |-> TLCEval([k \in 1..n |-> Low(0)]), skip |-> Rnd(0..(n + 1))]]
    [] w = "tomp" -> IF a.f = "np" THEN [d |-> rs("mp", a.r, a.c, a.sp), o |-> [op |-> w, i |-> i, j |-> i]] ELSE Skip
    [] w = "tonp" -> IF a.f # "np" THEN [d |-> << >>, o |-> [op |-> w, i |-> i, j |-> i]] ELSE Skip
    [] w = "repr" -> IF a.f # "np" THEN [d |-> << >>, o |-> [op |-> w, i |-> i, j |-> i]] ELSE Skip
    [] w = "entry" -> IF a.f # "np" /\ a.r > 0 /\ a.c > 0 THEN [d |-> << >>, o |-> [op |-> w, i |-> i, j |-> i, r |-> Rnd(1..a.r), c |-> Rnd(1..a.c)]] ELSE Skip
    [] w = "real" -> IF a.f = "mp" THEN [d |-> << >>, o |-> [op |-> w, i |-> i, j |-> i]] ELSE Skip
    [] w = "wrap" -> IF a.f # "MPF" THEN [d |-> rs("MPF", a.r, a.c, a.sp), o |-> [op |-> w, i |-> i, j |-> i]] ELSE Skip
    [] w = "poke" -> IF a.f # "MPF" /\ a.r > 0 /\ a.c > 0 /\ a.sp = "" THEN [d |-> << >>, o |-> [op |-> w, i |-> i, j |-> i, r |-> Rnd(1..a.r), c |-> Rnd(1..a.c), x |-> Rnd(-9..9)]] ELSE Skip
    [] OTHER -> Skip
RECURSIVE Walk(_, _, _)
Walk(hp, hs, len) ==
  IF len = 0 THEN hs
  ELSE IF Len(hp) < 2 \/ (Len(hp) < 7 /\ Rnd(1..4) = 1)
  THEN LET x == TLCEval(New(hp)) IN Walk(hp \o x.d, Append(hs, x.o @@ [keep |-> 1]), len - 1)
  ELSE IF Rnd(1..8) = 1 THEN Walk(hp, Append(hs, [op |-> "prec", v |-> RndSeq(<<2, 10, 30, 53, 64, 300>>)]), len - 1)
  ELSE LET x == TLCEval(Op(hp)) IN
       IF IsSkip(x) THEN Walk(hp, hs, len - 1)
       ELSE LET keep == x.d # << >> /\ \A k \in 1..Len(x.d) : x.d[k].r <= MaxDim /\ x.d[k].c <= MaxDim
            IN Walk(IF keep THEN hp \o x.d ELSE hp, Append(hs, x.o @@ [keep |-> IF keep THEN 1 ELSE 0]), len - 1)
Draw(r) == Walk(<< >>, << >>, Rnd(6..MaxLen))
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
