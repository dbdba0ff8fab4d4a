------------------------------ MODULE MCMPArith ------------------------------
(***************************************************************************)
(* Exhaustive check of the definitions of MPArith: all small matrices over *)
(* a small field; the rounding-free computation of sums of products on     *)
(* integers at every working precision; the criterion SpanFits.            *)
(***************************************************************************)
EXTENDS MPArith, Integers
CONSTANTS N, Prec, Ints
VARIABLES st
I5 == -5..5
I7 == -9..9
Fld == 0..(P - 1)
AllM(r, c) == {[r |-> r, c |-> c, e |-> e] : e \in [1..r -> [1..c -> Fld]]}
\* unit lower triangular matrices
LowIdx(n) == {<<i, j>> \in (1..n) \X (1..n) : j < i}
AllULT(n) == {Mk(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE IF j < i THEN g[<<i, j>>] ELSE 0) : g \in [LowIdx(n) -> Fld]}
Seqs(n) == UNION {[1..k -> Fld] : k \in 1..n}
Eval(s, z) == FoldLeft(LAMBDA a, k : (Mul(a, z) + s[k]) % P, 0, Idx(Len(s)))
\* ---- integers at a working precision of p bits
RECURSIVE Bits(_)
Bits(x) == IF x <= 0 THEN IF x = 0 THEN 0 ELSE Bits(-x) ELSE 1 + Bits(x \div 2)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
\* to nearest, ties to even
RoundTo(x, p) ==
  LET a == IF x < 0 THEN -x ELSE x  k == Bits(a) - p IN
  IF k <= 0 THEN x
  ELSE LET u == P2(k) q == a \div u r == a % u
           up == 2 * r > u \/ (2 * r = u /\ q % 2 = 1)
           v == (IF up THEN q + 1 ELSE q) * u
       IN IF x < 0 THEN -v ELSE v
\* the steps of the accumulation; exact by design
AddStep(x, y, p) == x + y
MulStep(x, y, p) == x * y
Dot(u, v, p) == FoldLeft(LAMBDA s, k : AddStep(s, MulStep(u[k], v[k], p), p), 0, Idx(Len(u)))
\* the broken design works in the current precision
RAdd(x, y, p) == RoundTo(x + y, p)
RMul(x, y, p) == RoundTo(x * y, p)
\* another broken design: the substitution stops one term too early
BadFwd(L, i) ==
  LET step(x, k) == Append(x, ((IF k = i THEN 1 ELSE 0) + Neg1(SumTo(IF k > 2 THEN k - 2 ELSE k - 1, LAMBDA j : Mul(L.e[k][j], x[j])))) % P)
  IN FoldLeft(step, << >>, Idx(L.r))
Toks == {<<a, s, b, t>> : a \in -3..3, s \in 0..4, b \in -3..3, t \in 0..4}
Init == \/ \E L \in AllULT(N) : st = [k |-> "inv", L |-> L]
        \/ \E a \in Seqs(2), b \in Seqs(3) : st = [k |-> "poly", a |-> a, b |-> b]
        \/ \E s \in Seqs(3), j \in 0..3 : st = [k |-> "prod", s |-> s, j |-> j]
        \/ \E u \in [1..2 -> Ints], v \in [1..2 -> Ints], p \in Prec : st = [k |-> "dot", u |-> u, v |-> v, p |-> p]
        \/ \E x \in Toks, p \in 3..7 : st = [k |-> "fit", x |-> x, p |-> p]
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
InvOK == st.k = "inv" => MMul(st.L, LTInv(st.L)) = Eye(N) /\ MMul(LTInv(st.L), st.L) = Eye(N)
PolyOK == st.k = "poly" => \A z \in Fld : Eval(PolyMul(st.a, st.b), z) = Mul(Eval(st.a, z), Eval(st.b, z))
ProdOK == st.k = "prod" => \A z \in Fld : Eval(PolyProd(st.s, st.j), z)
             = FoldLeft(LAMBDA acc, i : IF i = st.j THEN acc ELSE Mul(acc, (z + st.s[i]) % P), 1, Idx(Len(st.s)))
DotOK == st.k = "dot" => Dot(st.u, st.v, st.p) = st.u[1] * st.v[1] + st.u[2] * st.v[2]
FitOK == st.k = "fit" => LET x == st.x v == x[1] * P2(x[2]) + x[3] * P2(x[4]) IN SpanFits(x, 2, st.p, 0, 99) => RoundTo(v, st.p) = v
=============================================================================
