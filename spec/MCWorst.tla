------------------------------- MODULE MCWorst -------------------------------
(***************************************************************************)
(* Every small system run on every input sequence of length Len0 bounded   *)
(* by ub, beside the designed sequence: the last output is never above the *)
(* worst case, and the designed sequence is admissible and reaches it.     *)
(***************************************************************************)
EXTENDS Worst
CONSTANTS Len0, NN, QQ, CMax
VARIABLES sys, ub, k, x, y, plan, w, yw
Small == -CMax..CMax
MatOf(r, c, v) == BMk(r, c, LAMBDA i, j : DOf(v[(i - 1) * c + j], 0))
Vals(n) == [1..n -> Small]
Init == /\ \E a \in (IF NN = 1 THEN Vals(1) ELSE {<<0, p, r, s>> : p \in {1, -1}, r \in {0, 1, -1}, s \in {1, -1, 0}}), b \in Vals(NN * QQ), c \in Vals(NN), d \in Vals(QQ) :
           sys = [A |-> MatOf(NN, NN, a), B |-> MatOf(NN, QQ, b), C |-> MatOf(1, NN, c), D |-> MatOf(1, QQ, d)]
        /\ \E b \in (IF QQ = 1 THEN {<<1>>, <<2>>} ELSE {<<1, 2>>}) : ub = MatOf(QQ, 1, b)
        /\ k = 0 /\ x = BZeros(NN, 1) /\ y = DZero /\ plan = << >> /\ w = BZeros(NN, 1) /\ yw = DZero
DesignOf(S, b, N) == Design(S, b, N)
Start == k = 0 /\ plan = << >> /\ plan' = <<[u |-> DesignOf(sys, ub, Len0), best |-> WorstOf(sys, ub, Len0)]>> /\ UNCHANGED <<sys, ub, k, x, y, w, yw>>
Run == /\ plan # << >> /\ k < Len0 /\ k' = k + 1
       /\ \E u \in {v \in [1..QQ -> -2..2] : \A j \in 1..QQ : DCmp(DOf(IF v[j] < 0 THEN - v[j] ELSE v[j], 0), ub.e[j][1]) <= 0} :
            /\ x' = BAdd(BMul(sys.A, x), BMul(sys.B, MatOf(QQ, 1, u)))
            /\ y' = BAdd(BMul(sys.C, x), BMul(sys.D, MatOf(QQ, 1, u))).e[1][1]
       /\ LET u == BCol(plan[1].u, k + 1) IN
            /\ w' = BAdd(BMul(sys.A, w), BMul(sys.B, u))
            /\ yw' = BAdd(BMul(sys.C, w), BMul(sys.D, u)).e[1][1]
       /\ UNCHANGED <<sys, ub, plan>>
Next == Start \/ Run
Spec == Init /\ [][Next]_<<sys, ub, k, x, y, plan, w, yw>>
Bounded == k = Len0 => DCmp(y, plan[1].best) <= 0
Fits == plan # << >> => Admissible(plan[1].u, ub)
Reached == k = Len0 => DCmp(yw, plan[1].best) = 0
\* wrong designs
Forward(S, b, N) == LET U == Design(S, b, N) IN BMk(b.r, N, LAMBDA j, i : U.e[j][N - i + 1])
NoD(S, b, N) == LET U == Design(S, b, N) IN BMk(b.r, N, LAMBDA j, i : IF i = N THEN DZero ELSE U.e[j][i])
OneOff(S, b, N) == LET U == Design(S, b, N + 1) IN BMk(b.r, N, LAMBDA j, i : U.e[j][i])
FirstBound(S, b, N) == LET U == Design(S, b, N) IN BMk(b.r, N, LAMBDA j, i : IF U.e[j][i].s < 0 THEN DNeg(b.e[1][1]) ELSE b.e[1][1])
=============================================================================
