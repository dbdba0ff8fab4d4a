------------------------------- MODULE GenPrec -------------------------------
(***************************************************************************)
(* Random histories of calls of library functions: which function of the   *)
(* table, with which kind of arguments, a fault injected at the k-th call  *)
(* of the underlying libraries or not (k = 0), interleaved with changes of *)
(* the precision by the user.                                              *)
(***************************************************************************)
EXTENDS RandLib
CONSTANTS NFn, MaxLen
Kinds == <<"ok", "ok", "ok", "size", "type", "nonfinite", "complex", "mimo", "unstable", "empty">>
Ev(r) == IF Rnd(1..4) = 1 THEN [op |-> "prec", v |-> RndSeq(<<2, 15, 53, 54, 77, 100, 113, 500, 1000>>)]
         ELSE [op |-> "call", fn |-> Rnd(1..NFn), kind |-> RndSeq(Kinds), fault |-> IF Rnd(1..2) = 1 THEN 0 ELSE RndSeq(<<1, 1, 1, 2, 2, 3, 4, 5, 8, 13, 21, 40>>), seed |-> Rnd(0..9999)]
Draw(r) == TLCEval([k \in 1..MaxLen |-> Ev(k)])
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
