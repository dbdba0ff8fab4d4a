--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Integers of any size as sequences of digits in base Base (least         *)
(* significant first, no leading zero), dyadic numbers                     *)
(*     [s |-> sign (-1, 0, 1), m |-> natural, e |-> exponent]   s*m*2^e    *)
(* and their rounding to nearest (ties to even) on p bits.                 *)
(* Base is a power of two: 2^BaseBits.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANT BaseBits
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Base == TLCEval(Pow2(BaseBits))
Max2(a, b) == IF a >= b THEN a ELSE b
Dig(x, k) == IF k \in 1..Len(x) THEN x[k] ELSE 0
RECURSIVE Strip0(_)
Strip0(x) == IF x # << >> /\ x[Len(x)] = 0 THEN Strip0(SubSeq(x, 1, Len(x) - 1)) ELSE x
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN << >> ELSE <<n % Base>> \o NOf(n \div Base)
\* propagates carries: digits that are any naturals (below 2^30) -> digits below Base
Carry(x) ==
  LET r == FoldLeft(LAMBDA a, v : [o |-> Append(a.o, (v + a.c) % Base), c |-> (v + a.c) \div Base], [o |-> << >>, c |-> 0], x)
  IN Strip0(r.o \o NOf(r.c))
NAdd(x, y) == Carry([k \in 1..Max2(Len(x), Len(y)) |-> Dig(x, k) + Dig(y, k)])
\* x >= y
NSub(x, y) ==
  LET r == FoldLeft(LAMBDA a, k : LET v == Dig(x, k) - Dig(y, k) - a.b IN [o |-> Append(a.o, v % Base), b |-> IF v < 0 THEN 1 ELSE 0],
                    [o |-> << >>, b |-> 0], [k \in 1..Len(x) |-> k])
  IN Strip0(r.o)
RECURSIVE NCmpAt(_, _, _)
NCmpAt(x, y, k) == IF k = 0 THEN 0 ELSE IF x[k] # y[k] THEN (IF x[k] < y[k] THEN -1 ELSE 1) ELSE NCmpAt(x, y, k - 1)
NCmp(x, y) == IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1) ELSE NCmpAt(x, y, Len(x))
\* digit by digit, carrying after each row so that nothing exceeds 2 * Base^2
NMul(x, y) == FoldLeft(LAMBDA acc, k : NAdd(acc, Carry([i \in 1..(Len(x) + k - 1) |-> IF i < k THEN 0 ELSE x[i - k + 1] * y[k]])),
                       << >>, [k \in 1..Len(y) |-> k])
NShl(x, n) == IF x = << >> THEN x
              ELSE Carry([i \in 1..(Len(x) + n \div BaseBits) |-> IF i <= n \div BaseBits THEN 0 ELSE x[i - n \div BaseBits] * Pow2(n % BaseBits)])
\* floor(x / 2^n)
NShr(x, n) ==
  LET d == n \div BaseBits r == n % BaseBits u == Pow2(r) w == Pow2(BaseBits - r)
  IN IF d >= Len(x) THEN << >>
     ELSE Strip0([i \in 1..(Len(x) - d) |-> x[i + d] \div u + (Dig(x, i + d + 1) % u) * w])
RECURSIVE Bits1(_)
Bits1(n) == IF n = 0 THEN 0 ELSE 1 + Bits1(n \div 2)
NBits(x) == IF x = << >> THEN 0 ELSE (Len(x) - 1) * BaseBits + Bits1(x[Len(x)])
NEven(x) == x = << >> \/ x[1] % 2 = 0
NMod(x, q) == FoldRight(LAMBDA v, a : (a * (Base % q) + v) % q, x, 0)
\* ---- dyadic numbers
DZero == [s |-> 0, m |-> << >>, e |-> 0]
DOf(n, e) == [s |-> IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1, m |-> NOf(IF n < 0 THEN -n ELSE n), e |-> e]
DNeg(x) == [x EXCEPT !.s = -x.s]
\* (the mantissa of x with a smaller exponent)
At2(x, e) == NShl(x.m, x.e - e)
DAdd(x, y) ==
  IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
  ELSE LET e == IF x.e <= y.e THEN x.e ELSE y.e
           a == At2(x, e) b == At2(y, e) c == NCmp(a, b)
       IN IF x.s = y.s THEN [s |-> x.s, m |-> NAdd(a, b), e |-> e]
          ELSE IF c = 0 THEN DZero
          ELSE IF c > 0 THEN [s |-> x.s, m |-> NSub(a, b), e |-> e] ELSE [s |-> y.s, m |-> NSub(b, a), e |-> e]
DMul(x, y) == IF x.s = 0 \/ y.s = 0 THEN DZero ELSE [s |-> x.s * y.s, m |-> NMul(x.m, y.m), e |-> x.e + y.e]
DSub(x, y) == DAdd(x, DNeg(y))
DCmp(x, y) == DSub(x, y).s
DAbs(x) == IF x.s < 0 THEN DNeg(x) ELSE x
\* nearest number with p bits of mantissa, ties to even
DRound(x, p) ==
  LET n == NBits(x.m) - p IN
  IF n <= 0 THEN x
  ELSE LET q == NShr(x.m, n) r == NSub(x.m, NShl(q, n)) h == NShl(<<1>>, n - 1) c == NCmp(r, h)
           up == c > 0 \/ (c = 0 /\ ~NEven(q))
       IN [s |-> x.s, m |-> IF up THEN NAdd(q, <<1>>) ELSE q, e |-> x.e + n]
=============================================================================
