--------------------------------- MODULE Bands ---------------------------------
(***************************************************************************)
(* A gabarit as a sequence of bands [f1, f2, pass, g] (any frequencies and *)
(* gains with an order): order, shape, and the edges of the classical      *)
(* design problems (pass edges, stop edges).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Ordered(bs) == \A i, j \in 1..Len(bs) : i < j => bs[i].f1 <= bs[j].f1
PermOf(a, b) == Len(a) = Len(b) /\ \A x \in {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} :
                   Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
\* the shape, from the sequence of pass (TRUE) and stop (FALSE) bands
Shape(ps) == CASE ps = <<TRUE, FALSE>> -> "lowpass" [] ps = <<FALSE, TRUE>> -> "highpass"
               [] ps = <<TRUE, FALSE, TRUE>> -> "bandstop" [] ps = <<FALSE, TRUE, FALSE>> -> "bandpass" [] OTHER -> "multiband"
Passes(bs) == [i \in 1..Len(bs) |-> bs[i].pass]
\* one gain for all the pass bands, one for all the stop bands
OneGain(bs) == \A i, j \in 1..Len(bs) : bs[i].pass = bs[j].pass => bs[i].g = bs[j].g
Designable(bs) == Shape(Passes(bs)) # "multiband" /\ OneGain(bs)
Edges(bs) ==
  CASE Shape(Passes(bs)) = "lowpass" -> [wp |-> <<bs[1].f2>>, ws |-> <<bs[2].f1>>]
    [] Shape(Passes(bs)) = "highpass" -> [wp |-> <<bs[2].f1>>, ws |-> <<bs[1].f2>>]
    [] Shape(Passes(bs)) = "bandpass" -> [wp |-> <<bs[2].f1, bs[2].f2>>, ws |-> <<bs[1].f2, bs[3].f1>>]
    [] Shape(Passes(bs)) = "bandstop" -> [wp |-> <<bs[1].f2, bs[3].f1>>, ws |-> <<bs[2].f1, bs[2].f2>>]
================================================================================
