------------------------------- MODULE MCNames -------------------------------
(* the names of the variables of one realization are distinct, at every time and with every option *)
EXTENDS Names, FiniteSets
CONSTANTS MaxN
VARIABLES n, o
Opts == [ws : BOOLEAN, shift : -1..1, time : BOOLEAN, suffix : {"", "p"}, latex : BOOLEAN]
Init == n \in [{"t", "x", "u", "y"} -> 0..MaxN] /\ o \in Opts
Next == UNCHANGED <<n, o>>
Spec == Init /\ [][Next]_<<n, o>>
All == UNION {{<<b, k>> : k \in 1..n[b]} : b \in {"t", "x", "u", "y"}}
NameOf(v) == Printed(NameList(v[1], n[v[1]], << >>)[v[2]], o)
Distinct == \A v, w \in All : v # w => NameOf(v) \cap NameOf(w) = {}
\* the same variable at two times
TimesDistinct == o.time => \A v \in All : NameOf(v) \cap Printed(NameList(v[1], n[v[1]], << >>)[v[2]], [o EXCEPT !.shift = o.shift + 1]) = {}
=============================================================================
