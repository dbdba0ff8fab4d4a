-------------------------------- MODULE MCAlgo --------------------------------
(* every realization over a small field: the printed algorithms and the order of the C code compute its outputs *)
EXTENDS Algo
CONSTANT MDims
VARIABLES z, done
DQ == {<<l, n, 1, 1>> : l \in 0..1, n \in 0..1} \cup {<<0, 2, 1, 1>>, <<2, 1, 1, 1>>, <<1, 0, 2, 2>>, <<0, 1, 2, 2>>}
D22 == {<<l, n, 1, 1>> : l \in 0..1, n \in 0..2} \cup {<<2, 1, 1, 1>>}
D3 == D22 \cup {<<0, 1, 2, 1>>, <<0, 1, 1, 2>>, <<1, 1, 2, 1>>, <<1, 1, 1, 2>>, <<2, 0, 1, 1>>}
Mats(r, c) == {[r |-> r, c |-> c, e |-> m] : m \in [1..r -> [1..c -> 0..(P - 1)]]}
UnitLowers(r) == {[r |-> r, c |-> r, e |-> [i \in 1..r |-> [j \in 1..r |-> IF i = j THEN 1 ELSE IF j < i THEN m[i][j] ELSE 0]]] : m \in [1..r -> [1..r -> 0..(P - 1)]]}
Init == /\ done = FALSE
        /\ \E d \in MDims : \E J \in UnitLowers(d[1]), K \in Mats(d[2], d[1]), L \in Mats(d[3], d[1]), M \in Mats(d[1], d[2]), N \in Mats(d[1], d[4]),
                            X \in Mats(d[2], d[2]), Q \in Mats(d[2], d[4]), R \in Mats(d[3], d[2]), S \in Mats(d[3], d[4]) :
              z = [J |-> J, K |-> K, L |-> L, M |-> M, N |-> N, PP |-> X, Q |-> Q, R |-> R, S |-> S]
Nm == NamesOf(z, [t |-> << >>, x |-> << >>])
U == Mk(q_(z), 3, LAMBDA i, j : <<1, 0, 1>>[((i + j) % 3) + 1])
Ref == SimOut(z, U)
Check == /\ TimedRun(z, Nm, FALSE, Lines(z, Nm, TRUE), U) = Ref
         /\ StaticRun(z, Nm, FALSE, OutputsFirst(z, Lines(z, Nm, FALSE)), U, FALSE) = Ref
         /\ (Pnut(z) \/ ~(\E i \in 1..p_(z), j \in 1..n_(z) : z.R.e[i][j] # 0)) => StaticRun(z, Nm, FALSE, Lines(z, Nm, FALSE), U, FALSE) = Ref
         /\ StaticRun(z, Nm, FALSE, Lines(z, Nm, FALSE), U, TRUE) = Ref
Next == ~done /\ done' = TRUE /\ UNCHANGED z
OK == done => Check
Spec == Init /\ [][Next]_<<z, done>>
=============================================================================
