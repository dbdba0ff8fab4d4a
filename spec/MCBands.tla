-------------------------------- MODULE MCBands --------------------------------
(***************************************************************************)
(* Bands given one by one, in any order, and inserted at their place.  A   *)
(* design solver is told a shape and edges and promises to pass on one     *)
(* side of them and to stop on the other: with the edges of Edges, what is *)
(* promised covers every band (frequencies 0..MaxF, MaxF the half of the   *)
(* sampling frequency).                                                    *)
(***************************************************************************)
EXTENDS Bands, TLC
CONSTANTS MaxF, MaxB
VARIABLES given, bs
vars == <<given, bs>>
Gains(p) == IF p THEN {<<-1, 0>>} ELSE {<<-20>>, <<-40>>}
Cand == {[f1 |-> a, f2 |-> b, pass |-> p, g |-> g] : a \in 0..(MaxF - 1), b \in 1..MaxF, p \in BOOLEAN, g \in {<<-1, 0>>, <<-20>>, <<-40>>}}
Wellformed(b) == b.f1 < b.f2 /\ b.g \in Gains(b.pass)
Disjoint(b, c) == b.f2 < c.f1 \/ c.f2 < b.f1
Place(s, b) == LET k == Cardinality({i \in 1..Len(s) : s[i].f1 <= b.f1}) IN SubSeq(s, 1, k) \o <<b>> \o SubSeq(s, k + 1, Len(s))
Init == given = << >> /\ bs = << >>
Next == Len(given) < MaxB /\ \E b \in {c \in Cand : Wellformed(c)} : (\A i \in 1..Len(bs) : Disjoint(b, bs[i])) /\ given' = Append(given, b) /\ bs' = Place(bs, b)
Spec == Init /\ [][Next]_vars
Kept == Ordered(bs) /\ PermOf(given, bs)
EdgesOf(s) == Edges(s)
\* what the solver promises for f
PassAt(shape, e, f) == CASE shape = "lowpass" -> f <= e.wp[1] [] shape = "highpass" -> f >= e.wp[1] [] shape = "bandpass" -> e.wp[1] <= f /\ f <= e.wp[2] [] shape = "bandstop" -> f <= e.wp[1] \/ e.wp[2] <= f
StopAt(shape, e, f) == CASE shape = "lowpass" -> f >= e.ws[1] [] shape = "highpass" -> f <= e.ws[1] [] shape = "bandpass" -> f <= e.ws[1] \/ e.ws[2] <= f [] shape = "bandstop" -> e.ws[1] <= f /\ f <= e.ws[2]
Consistent(shape, e) == \A f \in 0..MaxF : ~(PassAt(shape, e, f) /\ StopAt(shape, e, f))
Promise == Designable(bs) => LET sh == Shape(Passes(bs)) e == EdgesOf(bs) IN
             Consistent(sh, e) /\ \A i \in 1..Len(bs) : \A f \in bs[i].f1..bs[i].f2 : IF bs[i].pass THEN PassAt(sh, e, f) ELSE StopAt(sh, e, f)
\* the shape does not depend on the order in which the bands were given, and is the usual one
Usual == LET sh == Shape(Passes(bs)) IN
         (sh = "lowpass" <=> (Len(bs) = 2 /\ \E i, j \in 1..2 : i # j /\ given[i].pass /\ ~given[j].pass /\ given[i].f1 < given[j].f1))
         /\ (sh = "bandstop" <=> (Len(bs) = 3 /\ Cardinality({i \in 1..3 : given[i].pass}) = 2 /\ \E j \in 1..3 : ~given[j].pass /\ \E i, k \in 1..3 : given[i].f1 < given[j].f1 /\ given[j].f1 < given[k].f1))
\* broken designs
Last(s, b) == Append(s, b)
Swapped(s) == IF Shape(Passes(s)) = "bandpass" THEN [wp |-> <<s[1].f2, s[3].f1>>, ws |-> <<s[2].f1, s[2].f2>>] ELSE Edges(s)
Inner(s) == IF Shape(Passes(s)) = "bandstop" THEN [wp |-> <<s[1].f1, s[3].f1>>, ws |-> <<s[2].f1, s[2].f2>>] ELSE Edges(s)
================================================================================
