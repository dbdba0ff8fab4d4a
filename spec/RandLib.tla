------------------------------- MODULE RandLib -------------------------------
(***************************************************************************)
(* Random choices of the generator specifications (seeded by TLC's -seed), *)
(* and their common shape: NRuns initial states, each of which prints one  *)
(* behaviour, drawn at random among those the specification allows.        *)
(***************************************************************************)
EXTENDS GF, Json
CONSTANT NRuns
Rnd(S) == RandomElement(S)
RndSeq(s) == s[RandomElement(1..Len(s))]
RndTo(n, pool) == TLCEval([k \in 1..n |-> RndSeq(pool)])
RMat(r, c, pool) == Mk(r, c, LAMBDA i, j : RndSeq(pool))
VARIABLES run, drawn
Emit(x) == PrintT("GEN " \o ToJson(x))
\* drawn = <<>> once printed
GInit(Draw(_)) == run \in 1..NRuns /\ drawn = <<TLCEval(Draw(run))>>
GNext == drawn # << >> /\ Emit(drawn[1]) = TRUE /\ drawn' = << >> /\ run' = run
=============================================================================
