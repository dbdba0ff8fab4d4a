--------------------------------- MODULE MCWl ---------------------------------
(***************************************************************************)
(* The search of the uniform word-length, for every small problem (two     *)
(* variables, bounds zeta in sixteenths, gains, and error bound): the      *)
(* result is sufficient and minimal; with it, every value bounded by zeta  *)
(* fits its format, and its rounding error is the one that was counted.    *)
(***************************************************************************)
EXTENDS Wl
CONSTANTS MaxZ, MaxG, MaxE
VARIABLES z, g, eps, w, ph
vars == <<z, g, eps, w, ph>>
Pos(n) == {DOf(k, -3) : k \in 1..n}
Init == /\ z \in {<<a, b>> : a \in Pos(MaxZ), b \in Pos(MaxZ)} /\ g \in {<<DOf(a, 0), DOf(b, 0)>> : a \in 0..MaxG, b \in 1..MaxG}
        /\ eps \in {DOf(k, -3) : k \in 1..MaxE}
        /\ w = 0 /\ ph = "guess"
Errs(zs, ww) == ErrOut(g, zs, ww)
Enough(ww) == DCmp(Errs(z, ww), eps) < 0
\* the error without the overflow bits
Naive(ww) == BSum(2, LAMBDA j : DShift(g[j], MSBOf(z[j]) - ww))
FirstGuess == CeilLog(Naive(0)) - FloorLog(eps) - 1
Guess == ph = "guess" /\ w' = FirstGuess /\ ph' = "up" /\ UNCHANGED <<z, g, eps>>
Up == ph = "up" /\ ~Enough(w) /\ w' = w + 1 /\ ph' = "up" /\ UNCHANGED <<z, g, eps>>
EndUp == ph = "up" /\ Enough(w) /\ ph' = "down" /\ UNCHANGED <<z, g, eps, w>>
Down == ph = "down" /\ Enough(w - 1) /\ w' = w - 1 /\ UNCHANGED <<z, g, eps, ph>>
EndDown == ph = "down" /\ ~Enough(w - 1) /\ ph' = "done" /\ UNCHANGED <<z, g, eps, w>>
Next == Guess \/ Up \/ EndUp \/ Down \/ EndDown
Spec == Init /\ [][Next]_vars
\* the truth, without the search: the first word-length that is enough
Optimal == ph = "done" => DCmp(ErrOut(g, z, w), eps) < 0 /\ DCmp(ErrOut(g, z, w - 1), eps) >= 0
\* with the formats counted, the extreme values fit: zeta <= 2^M - 2^(M-w+1) as soon as there are 2 bits
Fits(x, ww) == LET M == Reach(x, ww) IN ww >= 2 => DCmp(x, DSub(DOf(1, M), DOf(1, M - ww + 1))) <= 0
Smallest(x) == LET m == MSBOf(x) IN DCmp(x, DOf(1, m)) <= 0 /\ DCmp(x, DOf(1, m - 1)) > 0
Formats == \A j \in 1..2 : Smallest(z[j]) /\ \A ww \in 2..7 : Fits(z[j], ww)
\* wrong searches
NotStrict(ww) == DCmp(Errs(z, ww), eps) <= 0
NoThreshold(zs, ww) == Naive(ww)
Late(zeta) == LET m == MSBOf(zeta) IN IF IsPow2(zeta) THEN << >> ELSE <<m - FloorLog(DSub(DOf(1, m), zeta))>>
FiniteT(zeta) == LET m == MSBOf(zeta) IN IF IsPow2(zeta) THEN <<0>> ELSE <<1 + m - FloorLog(DSub(DOf(1, m), zeta))>>
\* one correction only (the original search)
OnceUp == ph = "up" /\ ~Enough(w) /\ w' = w + 1 /\ ph' = "done" /\ UNCHANGED <<z, g, eps>>
=============================================================================
