------------------------------ MODULE GenFilter ------------------------------
(* filters (transfer functions and state-spaces, dyadic coefficients) and parameters of the rho form *)
EXTENDS RandLib
CONSTANTS Kind        \* "tf", "stable" or "ss"
NPool == <<0, 0, 0, 1, -1, 2, 3, -3, 5, -4>>
Leads == <<1, 1, 1, 2, -1, 4, -2, 3, -5>>
\* stable second and first order factors with dyadic coefficients: <<c0, c1, c2>> stands for 1 + c1/2 z^-1 + c2/4 z^-2
Fact1 == {<<1, a>> : a \in {-1, 0, 1}}
Fact2 == {<<1, b, c>> : b \in -2..2, c \in 1..2}
IPMul(a, b) == [k \in 1..(Len(a) + Len(b) - 1) |-> FoldLeft(LAMBDA s, i : s + (IF i \in 1..Len(a) /\ (k + 1 - i) \in 1..Len(b) THEN a[i] * b[k + 1 - i] ELSE 0), 0, Idx(k))]
RECURSIVE RFact(_)
RFact(n) == IF n = 0 THEN <<1>> ELSE IF n = 1 \/ Rnd(1..3) = 1 THEN IPMul(Rnd(Fact1), RFact(n - 1)) ELSE IPMul(Rnd(Fact2), RFact(n - 2))
\* coefficient k of the product has scale 2^-k; over the common scale 2^-n:
Stable(n) == LET d == TLCEval(RFact(n)) IN [k \in 1..(n + 1) |-> d[k] * 2^(n + 1 - k)]
ScaleBy(x, s) == TLCEval([k \in 1..Len(s) |-> x * s[k]])
Tfn(r) == LET n == Rnd(1..4) m == IF Rnd(1..4) = 1 THEN Rnd(1..4) ELSE n IN
       LET lead == RndSeq(Leads) IN
       [kind |-> "tf", num |-> RndTo(m + 1, NPool), den |-> IF lead \in {1, -1, 2, -2} THEN <<lead>> \o RndTo(n, NPool) ELSE ScaleBy(lead, <<1>> \o RndTo(n, NPool)), sn |-> Rnd({0, 1}), sd |-> 0, lead |-> lead]
TfStable(r) == LET n == Rnd(1..4) lead == RndSeq(Leads) m == IF Rnd(1..4) = 1 THEN Rnd(1..n) ELSE n IN
       [kind |-> "tf", num |-> RndTo(m + 1, NPool), den |-> ScaleBy(lead, Stable(n)), sn |-> 0, sd |-> n, lead |-> lead]
Ssn(r) == LET n == Rnd(0..3) p == Rnd(1..3) q == Rnd(1..3) pl == <<0, 0, 1, -1, 2, -3>> IN
       [kind |-> "ss", A |-> RMat(n, n, pl), B |-> RMat(n, q, pl), C |-> RMat(p, n, pl), D |-> RMat(p, q, pl), sc |-> Rnd({0, 1})]
\* a stable SISO state-space: block triangular with stable diagonal entries, mixed by a unimodular similarity
SsStable(r) == LET n == Rnd(1..3) pl == <<0, 1, -1, 2, -3>> IN
       [kind |-> "ss", A |-> Mk(n, n, LAMBDA i, j : IF i = j THEN Rnd({-1, 0, 1}) ELSE IF j < i THEN RndSeq(pl) ELSE 0),
        B |-> RMat(n, 1, pl), C |-> RMat(1, n, pl), D |-> RMat(1, 1, pl), sc |-> 1]
Draw(r) == CASE Kind = "tf" -> Tfn(r) [] Kind = "stable" -> (IF Rnd(1..3) = 1 THEN SsStable(r) ELSE TfStable(r)) [] Kind = "ss" -> Ssn(r)
Params(r) == [g |-> RndTo(4, <<0, 1, -1, 2, 3, -2, 4>>),        \* gamma = g/4
           d |-> RndTo(4, <<0, 0, 1, -1, 2, -2, 3>>),        \* Delta = 2^d
           same |-> Rnd({0, 0, 1})]
Both(r) == [f |-> TLCEval(Draw(r)), par |-> TLCEval(Params(r))]
Init == GInit(Both)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
