------------------------------- MODULE MCTilde -------------------------------
(***************************************************************************)
(* Forms over GF(P) (two intermediate variables, one state, one input, one *)
(* output) and the same with at most Moves coefficients changed: exact and *)
(* degraded forms run on every sequence of inputs and perturbations (one   *)
(* active at a time, the forms are linear), beside the error form: its     *)
(* output is the difference of their outputs, and so is the error system's.*)
(***************************************************************************)
EXTENDS Tilde
CONSTANTS Moves, MaxK, Fixed
VARIABLES z, zt, k, x, xt, xe, ok
E == 0..(P - 1)
Cells == {"j", "k1", "k2", "l1", "l2", "m1", "m2", "n1", "n2", "p", "q", "r", "s"}
Form(v) == [J |-> Mk(2, 2, LAMBDA i, j : IF i = j THEN 1 ELSE IF i > j THEN v["j"] ELSE 0), K |-> Mk(1, 2, LAMBDA i, j : v[IF j = 1 THEN "k1" ELSE "k2"]),
            L |-> Mk(1, 2, LAMBDA i, j : v[IF j = 1 THEN "l1" ELSE "l2"]), M |-> Mk(2, 1, LAMBDA i, j : v[IF i = 1 THEN "m1" ELSE "m2"]),
            N |-> Mk(2, 1, LAMBDA i, j : v[IF i = 1 THEN "n1" ELSE "n2"]), PP |-> Mk(1, 1, LAMBDA i, j : v["p"]), Q |-> Mk(1, 1, LAMBDA i, j : v["q"]),
            R |-> Mk(1, 1, LAMBDA i, j : v["r"]), S |-> Mk(1, 1, LAMBDA i, j : v["s"])]
Moved == {s \in SUBSET Cells : Cardinality(s) <= Moves /\ s # {}}
Init == /\ \E v \in {f \in [Cells -> E] : \A c \in Cells : c \in Fixed => f[c] = 1} : \E s \in Moved :
             z = Form(v) /\ zt = Form([c \in Cells |-> IF c \in s THEN (v[c] + 1) % P ELSE v[c]])
        /\ k = 0 /\ x = Zeros(1, 1) /\ xt = Zeros(1, 1) /\ xe = Zeros(2, 1) /\ ok = TRUE
FormOf(a, b) == ErrForm(a, b)
\* one step with input d (5 entries: u, et1, et2, ex, ey)
Next == /\ k < MaxK /\ k' = k + 1 /\ UNCHANGED <<z, zt>>
        /\ \E a \in (IF k = 0 THEN 1..5 ELSE {0}) :
             LET d == Mk(5, 1, LAMBDA i, j : IF i = a THEN 1 ELSE 0) u == SubM(d, 0, 1, 0, 1) eps == SubM(d, 1, 4, 0, 1)
                 s1 == Step(z, x, u) s2 == StepEps(zt, xt, u, eps) s3 == Step(FormOf(z, zt), xe, d) IN
             x' = s1.x /\ xt' = s2.x /\ xe' = s3.x /\ ok' = MEq(s3.y, MSub(s2.y, s1.y))
Spec == Init /\ [][Next]_<<z, zt, k, x, xt, xe, ok>>
Difference == ok
Closed == k = 0 => Equiv(SysOf(ErrForm(z, zt)), ErrSys(z, zt))
\* wrong forms
OldJ(a, b) == [ErrForm(a, b) EXCEPT !.J = Low(a.J, a.J)]
NoDeltaQ(a, b) == [ErrForm(a, b) EXCEPT !.Q = VCat(Widened(a).Q, MSub(Perturbed(a).Q, Widened(a).Q))]
ExactK(a, b) == [ErrForm(a, b) EXCEPT !.K = VCat(HCat(a.K, Zeros(1, 2)), HCat(MSub(b.K, a.K), a.K))]
Swapped(a, b) == ErrForm(b, a)
=============================================================================
