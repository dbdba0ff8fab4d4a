------------------------------- MODULE GenDims -------------------------------
(***************************************************************************)
(* Constructions: for every kind and every value of the symbols, the right *)
(* sizes, every change of the size of one matrix, and some changes of two. *)
(***************************************************************************)
EXTENDS Dims, SequencesExt, TLC, Json
CONSTANTS MaxD, MaxS, Pairs, Lo
VARIABLE c
Sizes == (0..MaxS) \X (0..MaxS)
Base(k) == IF k \in TFKinds THEN {<< <<1, a>>, <<1, b>> >> : a, b \in 1..3} \cup (IF k = "tfmp" THEN {<< <<a, 1>>, <<b, 1>> >> : a, b \in 1..3} ELSE {})
           ELSE {Sized(k, v) : v \in {v \in Vals(k, MaxD) : v["p"] >= Lo /\ v["q"] >= Lo}}
Ones(b) == {[b EXCEPT ![i] = s] : i \in 1..Len(b), s \in Sizes}
Two(b) == LET i == TLCEval(RandomElement(1..Len(b))) j == TLCEval(RandomElement(1..Len(b))) IN
          TLCEval([b EXCEPT ![i] = IF RandomElement(1..2) = 1 THEN <<@[2], @[1]>> ELSE <<RandomElement(0..MaxS), @[2]>>, ![j] = IF RandomElement(1..2) = 1 THEN <<@[2], @[1]>> ELSE <<@[1], RandomElement(0..MaxS)>>])
Init == c \in {[k |-> k, b |-> b] : k \in Kinds, b \in UNION {Base(x) : x \in Kinds}} /\ c.b \in Base(c.k)
Twos(x) == {Two(x.b) : i \in 1..Pairs}
Next == c.b # << >> /\ c' = [c EXCEPT !.b = << >>]
        /\ PrintT("GEN " \o ToJson([kind |-> c.k, sh |-> SetToSeq(Ones(c.b)) \o [i \in 1..Pairs |-> Two(c.b)]])) = TRUE
Spec == Init /\ [][Next]_c
=============================================================================
