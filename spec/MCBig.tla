-------------------------------- MODULE MCBig --------------------------------
(* Big against the integers of TLC, exhaustively for small numbers and bases *)
EXTENDS Big
CONSTANT Upto
VARIABLES st
RECURSIVE Val(_)
Val(x) == IF x = << >> THEN 0 ELSE x[1] + Base * Val(Tail(x))
Canon(x) == (x = << >> \/ x[Len(x)] # 0) /\ \A k \in 1..Len(x) : x[k] \in 0..(Base - 1)
DVal(x) == x.s * Val(x.m) * Pow2(x.e + 3)     \* exponents >= -3
Init == st \in {[a |-> a, b |-> b] : a \in 0..Upto, b \in 0..Upto}
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
A == NOf(st.a)
B == NOf(st.b)
Same(x, v) == Canon(x) /\ Val(x) = v
NatOK == /\ Same(A, st.a) /\ Same(NAdd(A, B), st.a + st.b) /\ Same(NMul(A, B), st.a * st.b)
         /\ (st.a >= st.b => Same(NSub(A, B), st.a - st.b))
         /\ (NCmp(A, B) < 0) = (st.a < st.b) /\ (NCmp(A, B) > 0) = (st.a > st.b)
         /\ \A n \in 0..5 : Same(NShl(A, n), st.a * Pow2(n)) /\ Same(NShr(A, n), st.a \div Pow2(n))
         /\ (st.a > 0 => Pow2(NBits(A) - 1) <= st.a /\ st.a < Pow2(NBits(A)))
         /\ NEven(A) = (st.a % 2 = 0) /\ NMod(A, 7) = st.a % 7
Sg == {-1, 1}
DyOK == \A s \in Sg : \A t \in Sg : \A e \in {-3, 0, 2} :
          LET x == DOf(s * st.a, e) y == DOf(t * st.b, -1) IN
          /\ DVal(DAdd(x, y)) = DVal(x) + DVal(y) /\ DVal(DSub(x, y)) = DVal(x) - DVal(y)
          /\ (LET z == DMul(x, DOf(st.b, 0)) IN DVal(z) = DVal(x) * st.b)
          /\ DCmp(x, y) = (IF DVal(x) < DVal(y) THEN -1 ELSE IF DVal(x) = DVal(y) THEN 0 ELSE 1)
\* the rounded number is a nearest one on p bits, and an even one in case of tie
AbsI(n) == IF n < 0 THEN -n ELSE n
RoundOK == \A p \in 1..3 : \A s \in Sg :
          LET x == DOf(s * st.a, 0) r == DRound(x, p)
              unit == IF Bits1(st.a) <= p THEN 1 ELSE Pow2(Bits1(st.a) - p)
              v == DVal(r) \div 8
          IN /\ v % unit = 0 /\ 2 * AbsI(v - s * st.a) <= unit
             /\ (2 * AbsI(v - s * st.a) = unit => (AbsI(v) \div unit) % 2 = 0)
             /\ Bits1(AbsI(v)) - (IF v = 0 THEN 0 ELSE IF AbsI(v) % unit = 0 THEN Bits1(unit) - 1 ELSE 0) <= p + 1
\* a broken rounding: ties away from zero
BadRound(x, p) ==
  LET n == NBits(x.m) - p IN
  IF n <= 0 THEN x
  ELSE LET q == NShr(x.m, n) r == NSub(x.m, NShl(q, n)) h == NShl(<<1>>, n - 1)
       IN [s |-> x.s, m |-> IF NCmp(r, h) >= 0 THEN NAdd(q, <<1>>) ELSE q, e |-> x.e + n]
\* a broken subtraction that loses the borrow
BadSub(x, y) == Strip0([k \in 1..Len(x) |-> (Dig(x, k) - Dig(y, k)) % Base])
=============================================================================
