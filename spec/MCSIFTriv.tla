------------------------------ MODULE MCSIFTriv ------------------------------
(***************************************************************************)
(* The rounding of a coefficient and the triviality marker, checked for    *)
(* every integer up to MaxA and every word-length:                         *)
(*  - a quantized coefficient fits w bits, is within half an ulp of the    *)
(*    coefficient (or saturated), and rounding is idempotent;              *)
(*  - the markers are exactly those of zeros and powers of two.            *)
(***************************************************************************)
EXTENDS SIFObj
CONSTANT MaxA
VARIABLE a
NoMats(kind, r, c) == {}
TInit == a = -MaxA /\ obj = << >> /\ ops = 0 /\ hist = << >>
TNext == a < MaxA /\ a' = a + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<a, vars>>
TrivOK == Trivial(a) <=> (a = 0 \/ \E k \in 0..20 : a = 2^k \/ a = -(2^k))
W == 1..12
\* compare a with k * 2^s without fractions
Scaled(k, s, up) == k * 2^(s + up)
QuantOK == a # 0 => \A w \in W :
   LET q == Quant(a, w)
       up == IF q[2] < 0 THEN -q[2] ELSE 0        \* scale so that everything is an integer
       v == Scaled(q[1], q[2], up)
       x == a * 2^up
       ulp == 2^(q[2] + up)
       fits == QFits(q[1], w)
       sat == q[1] = 2^(w - 1) - 1 \/ q[1] = -(2^(w - 1))
   IN /\ fits
      /\ sat \/ 2 * Abs(v - x) <= ulp
=============================================================================
