--------------------------------- MODULE Tok ---------------------------------
(***************************************************************************)
(* Dyadic numbers of any magnitude and mantissa size as tokens             *)
(*     <<a, s, b, t>>  standing for  a * 2^s + b * 2^t                     *)
(* (small integers a, b and exponents s, t of any sign), their images in   *)
(* GF(P), and matrices of tokens.                                          *)
(***************************************************************************)
EXTENDS GF
TPow2(k) == IF k >= 0 THEN PowMod(2, k) ELSE Inv(PowMod(2, -k))
TVal(x) == (Mul(x[1] % P, TPow2(x[2])) + Mul(x[3] % P, TPow2(x[4]))) % P
Tok0 == <<0, 0, 0, 0>>
TSeq(s) == TLCEval([k \in 1..Len(s) |-> TVal(s[k])])
TMat(m) == Mk(m.r, m.c, LAMBDA i, j : TVal(m.e[i][j]))
=============================================================================
