--------------------------------- MODULE Dims ---------------------------------
(***************************************************************************)
(* Sizes of the matrices an object is built from.  Every matrix of a kind  *)
(* of object has symbolic sizes; the matrices are consistent when there    *)
(* are values of the symbols that give every matrix its size.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
SifKinds == {"sif", "real"}
SSKinds == {"ss", "mpnp", "mpmp", "filter"}
TFKinds == {"tf", "tfmp", "tffilter"}
Kinds == SifKinds \cup SSKinds \cup TFKinds
Syms(k) == IF k \in SifKinds THEN <<"l", "n", "p", "q">> ELSE <<"n", "p", "q">>
SifShape == << <<"l", "l">>, <<"n", "l">>, <<"p", "l">>, <<"l", "n">>, <<"l", "q">>, <<"n", "n">>, <<"n", "q">>, <<"p", "n">>, <<"p", "q">> >>
SSShape == << <<"n", "n">>, <<"n", "q">>, <<"p", "n">>, <<"p", "q">> >>
Shape(k) == IF k \in SifKinds THEN SifShape ELSE SSShape
Range1(s) == {s[i] : i \in 1..Len(s)}
\* the sizes of the matrices for a value of the symbols
Sized(k, v) == [b \in 1..Len(Shape(k)) |-> <<v[Shape(k)[b][1]], v[Shape(k)[b][2]]>>]
Vals(k, max) == [Range1(Syms(k)) -> 0..max]
Agree(k, sh, v) == \A b \in 1..Len(Shape(k)) : sh[b] = <<v[Shape(k)[b][1]], v[Shape(k)[b][2]]>>
\* the only candidate, read on the square matrices and on the last one, if there is one
Sol(k, sh) == IF k \in SifKinds THEN [l |-> sh[1][1], n |-> sh[6][1], p |-> sh[9][1], q |-> sh[9][2]]
              ELSE [n |-> sh[1][1], p |-> sh[4][1], q |-> sh[4][2]]
Vec(k, s) == IF k = "tfmp" THEN s[1] = 1 \/ s[2] = 1 ELSE s[1] = 1
Length(s) == IF s[1] = 1 THEN s[2] ELSE s[1]
\* numerator and denominator; an empty one is not a vector
Consistent(k, sh) == IF k \in TFKinds THEN \A b \in 1..2 : Vec(k, sh[b]) /\ sh[b][1] > 0 /\ sh[b][2] > 0
                     ELSE Agree(k, sh, Sol(k, sh))
Max2(a, b) == IF a > b THEN a ELSE b
SizeOf(k, sh) == IF k \in TFKinds THEN <<Max2(Length(sh[1]), Length(sh[2])) - 1>>
                 ELSE LET v == Sol(k, sh) IN [i \in 1..Len(Syms(k)) |-> v[Syms(k)[i]]]
=============================================================================
