------------------------------ MODULE SIFTheory ------------------------------
(***************************************************************************)
(* Exhaustive check over a small field: for EVERY SIF of the given sizes   *)
(* (J invertible), the closed forms of SIF.tla describe the operational    *)
(* meaning (Step): input/output behaviour, internal variables, effect of   *)
(* an additive error on each computed variable; Z <-> blocks; and the      *)
(* order of execution (forward solve) agrees with the inverse of J.        *)
(* One state per SIF.                                                      *)
(***************************************************************************)
EXTENDS SIF
CONSTANTS DIMS        \* set of <<l, n, p, q>>
VARIABLE z, phase

ElemSets == 0..(P - 1)
Mats(r, c) == {[r |-> r, c |-> c, e |-> m] : m \in [1..r -> [1..c -> ElemSets]]}

Init == /\ phase = 0
        /\ \E d \in DIMS :
             LET l == d[1] n == d[2] p == d[3] q == d[4] IN
             z = [J |-> Eye(l), K |-> Zeros(n, l), L |-> Zeros(p, l), M |-> Zeros(l, n), N |-> Zeros(l, q),
                  PP |-> Zeros(n, n), Q |-> Zeros(n, q), R |-> Zeros(p, n), S |-> Zeros(p, q)]
\* matrices are chosen one after the other (phases) so that TLC enumerates without giant sets
Next == \/ /\ phase = 0 /\ \E J \in Mats(l_(z), l_(z)) : Invertible(J) = TRUE /\ z' = [z EXCEPT !.J = J]
           /\ phase' = 1
        \/ /\ phase = 1 /\ \E K \in Mats(n_(z), l_(z)), L \in Mats(p_(z), l_(z)) : z' = [z EXCEPT !.K = K, !.L = L]
           /\ phase' = 2
        \/ /\ phase = 2 /\ \E M \in Mats(l_(z), n_(z)), N \in Mats(l_(z), q_(z)) : z' = [z EXCEPT !.M = M, !.N = N]
           /\ phase' = 3
        \/ /\ phase = 3 /\ \E X \in Mats(n_(z), n_(z)), Q \in Mats(n_(z), q_(z)) : z' = [z EXCEPT !.PP = X, !.Q = Q]
           /\ phase' = 4
        \/ /\ phase = 4 /\ \E R \in Mats(p_(z), n_(z)), S \in Mats(p_(z), q_(z)) : z' = [z EXCEPT !.R = R, !.S = S]
           /\ phase' = 5
Spec == Init /\ [][Next]_<<z, phase>>

Done == phase = 5
Len_ == 2 * n_(z) + 2       \* enough steps by Cayley-Hamilton (orders n and n)
Impulse(q, i) == Mk(q, Len_, LAMBDA a, k : IF k = 1 /\ a = i THEN 1 ELSE 0)

TypeOK == DimOK(z)
ZRoundTrip == FromZ(ZMat(z), l_(z), n_(z), p_(z), q_(z)) = z
IOBehaviour == Done => \A i \in 1..q_(z) : SimOut(z, Impulse(q_(z), i)) = SimSS(SysOf(z), Impulse(q_(z), i))
HuOK == Done => \A i \in 1..q_(z) : SimHu(z, Impulse(q_(z), i)) = SimSS(HuSys(z), Impulse(q_(z), i))
HzetaOK == Done => \A i \in 1..q_(z) : SimHzeta(z, Impulse(q_(z), i)) = SimSS(HzetaSys(z), Impulse(q_(z), i))
HepsOK == Done => LET v == l_(z) + n_(z) + p_(z)
                  IN \A i \in 1..v : SimEps(z, Impulse(v, i)) = SimSS(HepsSys(z), Impulse(v, i))
ForwardIsInverse == Done /\ UnitLT(z.J) =>
     \A i \in 1..l_(z) : LET v == Mk(l_(z), 1, LAMBDA a, b : IF a = i THEN 1 ELSE 0)
                         IN ForwardSolve(z.J, v) = MMul(MInv(z.J), v)
\* the derivative of the behaviour w.r.t. any coefficient of Z is Hepsilon's column times Hu's row:
\* perturbing coefficient (i,j) by d changes the system by the feedback of d through both (first order identity
\* checked exactly through the perturbed system's own Hepsilon: H(Z+d) - H(Z) = d * Heps(Z) e_i . e_j' Hu~(Z+d))
=============================================================================
