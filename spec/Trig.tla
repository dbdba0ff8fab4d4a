---------------------------------- MODULE Trig ----------------------------------
(***************************************************************************)
(* Sines and cosines of dyadic numbers, and the frequency response of a    *)
(* transfer function, on Prec bits.                                        *)
(***************************************************************************)
EXTENDS Big
CONSTANT Prec
R(x) == DRound(x, Prec)
\* pi * 2^118, in base 2^12
PI == [s |-> 1, m |-> <<3100, 2061, 651, 3174, 1220, 3107, 360, 2594, 4058, 3216>>, e |-> -118]
\* the natural x divided by the small n
NDiv(x, n) == LET r == FoldRight(LAMBDA v, a : [o |-> <<(a.r * Base + v) \div n>> \o a.o, r |-> (a.r * Base + v) % n], x, [o |-> << >>, r |-> 0]) IN Strip0(r.o)
DDiv(x, n) == IF x.s = 0 THEN x ELSE LET m == NDiv(NShl(x.m, Prec + 8), n) IN IF m = << >> THEN DZero ELSE R([s |-> x.s, m |-> m, e |-> x.e - Prec - 8])
\* sum over k = k0, k0 + 2, ... of (-1)^((k - k0) / 2) x^k / k!
Series(x, k0, terms) ==
  LET x2 == R(DMul(x, x))
      r == FoldLeft(LAMBDA a, i : LET t == DNeg(DDiv(R(DMul(a.t, x2)), (k0 + 2 * i) * (k0 + 2 * i - 1))) IN [t |-> t, sum |-> R(DAdd(a.sum, t))],
                    LET t0 == IF k0 = 0 THEN DOf(1, 0) ELSE x IN [t |-> t0, sum |-> t0], [i \in 1..terms |-> i])
  IN r.sum
Cos(x) == Series(x, 0, 18)
Sin(x) == Series(x, 1, 18)
\* complex numbers <<re, im>>
CMul(a, b) == <<R(DSub(DMul(a[1], b[1]), DMul(a[2], b[2]))), R(DAdd(DMul(a[1], b[2]), DMul(a[2], b[1])))>>
CAbs2(a) == R(DAdd(DMul(a[1], a[1]), DMul(a[2], a[2])))
\* row[1] + row[2] v + ...
CPoly(row, v) == FoldRight(LAMBDA c, a : LET p == CMul(a, v) IN <<R(DAdd(p[1], c)), p[2]>>, row, <<DZero, DZero>>)
\* z^-1 at the normalised frequency w (1: half of the sampling frequency)
ZInv(w) == LET x == R(DMul(PI, w)) IN <<Cos(x), DNeg(Sin(x))>>
RECURSIVE DPow(_, _)
DPow(x, n) == IF n = 0 THEN DOf(1, 0) ELSE IF n % 2 = 0 THEN LET y == DPow(x, n \div 2) IN R(DMul(y, y)) ELSE R(DMul(x, DPow(x, n - 1)))
\* sign of |num/den|^2 * (1 + sl) - 10^(g/10) at a point, sl = k * 2^-12 (g integer, in dB)
GainCmp(num, den, v, g, k) ==
  LET n == DPow(R(DMul(CAbs2(CPoly(num, v)), DAdd(DOf(1, 0), DOf(k, -12)))), 10) d == DPow(CAbs2(CPoly(den, v)), 10)
      t == DPow(DOf(10, 0), IF g < 0 THEN -g ELSE g)
  IN IF g < 0 THEN DCmp(R(DMul(n, t)), d) ELSE DCmp(n, R(DMul(d, t)))
================================================================================
