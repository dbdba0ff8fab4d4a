---------------------------------- MODULE GF ----------------------------------
(***************************************************************************)
(* Linear algebra over the prime field GF(P).                              *)
(*                                                                         *)
(* Every identity fixif relies on (elimination of the intermediate         *)
(* variables, series/parallel connection, similarity, canonical forms,     *)
(* impulse responses, ...) is an identity of rational functions of the     *)
(* coefficients, so it can be stated over any field.  We use               *)
(*   - a tiny prime (2, 3, 5) for exhaustive model checking, and           *)
(*   - P = 46337 (the largest prime whose square fits TLC's integers) for  *)
(*     trace validation: the exact dyadic / rational numbers recorded from *)
(*     the implementation are mapped to GF(P) by the ring homomorphism     *)
(*     num/den |-> num * den^-1.  Equal numbers always have equal images   *)
(*     (no false alarm); different ones collide with probability ~ 1/P.    *)
(*                                                                         *)
(* A matrix is a record [r, c, e]: numbers of rows and columns, and the    *)
(* sequence of its rows.  (r and c make 0 x n and n x 0 matrices distinct.)*)
(* The number -1, which is no element of GF(P), stands for a recorded      *)
(* value that is not a number of the expected grid (NaN, wrong value ...). *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

CONSTANT P

Idx(n) == [k \in 1..n |-> k]

\* sum of f(k) for k in 1..n
SumTo(n, f(_)) == FoldLeft(LAMBDA s, k : (s + f(k)) % P, 0, Idx(n))

Neg1(a) == (P - a) % P
Mul(a, b) == (a * b) % P

\* a^(P-2) = 1/a by square and multiply (P < 2^16)
PowMod(a, n) ==
  FoldLeft(LAMBDA s, k : [b |-> (s.b * s.b) % P, m |-> s.m \div 2, v |-> IF s.m % 2 = 1 THEN (s.v * s.b) % P ELSE s.v],
           [b |-> a, m |-> n, v |-> 1], Idx(16)).v
Inv(a) == PowMod(a, P - 2)
Div(a, b) == Mul(a, Inv(b))

Mk(r, c, f(_, _)) == [r |-> r, c |-> c, e |-> TLCEval([i \in 1..r |-> [j \in 1..c |-> f(i, j)]])]

At(a, i, j) == a.e[i][j]
Zeros(r, c) == Mk(r, c, LAMBDA i, j : 0)
Eye(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Scalar(x) == [r |-> 1, c |-> 1, e |-> << <<x>> >>]

MAdd(a, b) == Mk(a.r, a.c, LAMBDA i, j : (a.e[i][j] + b.e[i][j]) % P)
MNeg(a) == Mk(a.r, a.c, LAMBDA i, j : Neg1(a.e[i][j]))
MSub(a, b) == Mk(a.r, a.c, LAMBDA i, j : (a.e[i][j] + Neg1(b.e[i][j])) % P)
MMul(a, b) == Mk(a.r, b.c, LAMBDA i, j : SumTo(a.c, LAMBDA k : (a.e[i][k] * b.e[k][j]) % P))
MScale(x, a) == Mk(a.r, a.c, LAMBDA i, j : Mul(x, a.e[i][j]))
Tr(a) == Mk(a.c, a.r, LAMBDA i, j : a.e[j][i])
HCat(a, b) == Mk(a.r, a.c + b.c, LAMBDA i, j : IF j <= a.c THEN a.e[i][j] ELSE b.e[i][j - a.c])
VCat(a, b) == Mk(a.r + b.r, a.c, LAMBDA i, j : IF i <= a.r THEN a.e[i][j] ELSE b.e[i - a.r][j])
\* rows r0+1..r0+nr, columns c0+1..c0+nc
SubM(a, r0, nr, c0, nc) == Mk(nr, nc, LAMBDA i, j : a.e[r0 + i][c0 + j])
\* selection of rows and columns by sequences of indices (0-based, as in the code)
Pick(a, rows, cols) == Mk(Len(rows), Len(cols), LAMBDA i, j : a.e[rows[i] + 1][cols[j] + 1])
\* observed matrix o against the expected one: -2 stands for a double too large to be resolved
REq(o, x) == o = -2 \/ o = x
MEq(o, x) == /\ o.r = x.r /\ o.c = x.c
             /\ Len(o.e) = o.r
             /\ \A i \in 1..o.r : Len(o.e[i]) = o.c /\ \A j \in 1..o.c : REq(o.e[i][j], x.e[i][j])
SeqEq(o, x) == Len(o) = Len(x) /\ \A i \in 1..Len(o) : REq(o[i], x[i])
Trace1(a) == SumTo(a.r, LAMBDA i : a.e[i][i])
IsSquare(a) == a.r = a.c

\* well-formed matrix over GF(P)
IsMat(a) == /\ Len(a.e) = a.r
            /\ \A i \in 1..a.r : /\ Len(a.e[i]) = a.c
                                 /\ \A j \in 1..a.c : a.e[i][j] \in 0..(P - 1)

(***************************************************************************)
(* Gauss-Jordan elimination: GaussJordan(a) is [ok |-> FALSE, ...] when a is   *)
(* singular.                                                               *)
(***************************************************************************)
RowOp(m, k) ==  \* m: augmented matrix, k: column to eliminate; -> [ok, m]
  LET piv == {i \in k..m.r : m.e[i][k] # 0}
  IN IF piv = {} THEN [ok |-> FALSE, m |-> m]
     ELSE LET p == Min(piv)
              sw == TLCEval([i \in 1..m.r |-> IF i = k THEN m.e[p] ELSE IF i = p THEN m.e[k] ELSE m.e[i]])
              iv == Inv(sw[k][k])
              pr == TLCEval([j \in 1..m.c |-> Mul(iv, sw[k][j])])
          IN [ok |-> TRUE,
              m |-> Mk(m.r, m.c, LAMBDA i, j : IF i = k THEN pr[j]
                                               ELSE (sw[i][j] + Neg1(Mul(sw[i][k], pr[j]))) % P)]
GaussJordan(a) ==
  LET res == FoldLeft(LAMBDA s, k : IF s.ok THEN RowOp(s.m, k) ELSE s,
                      [ok |-> TRUE, m |-> HCat(a, Eye(a.r))], Idx(a.r))
  IN [ok |-> res.ok, m |-> IF res.ok THEN SubM(res.m, 0, a.r, a.r, a.r) ELSE Zeros(a.r, a.r)]
Invertible(a) == GaussJordan(a).ok
MInv(a) == GaussJordan(a).m

(***************************************************************************)
(* Behaviours of a state-space S = [A, B, C, D].                           *)
(***************************************************************************)
SS(A, B, C, D) == [A |-> A, B |-> B, C |-> C, D |-> D]
IsSS(S) == /\ S.A.r = S.A.c /\ S.B.r = S.A.r /\ S.C.c = S.A.c
           /\ S.D.r = S.C.r /\ S.D.c = S.B.c
Order(S) == S.A.r
NOut(S) == S.C.r
NIn(S) == S.B.c

\* first N Markov parameters (impulse response): D, CB, CAB, ...
Markov(S, N) ==
  LET RECURSIVE go(_, _, _)
      go(X, k, acc) == IF k >= N THEN acc
                       ELSE go(MMul(S.A, X), k + 1, Append(acc, MMul(S.C, X)))
  IN IF N = 0 THEN << >> ELSE go(S.B, 1, <<S.D>>)

\* two systems of orders n1 and n2 are input/output equivalent iff their first
\* n1+n2+1 Markov parameters agree (Cayley-Hamilton on the difference system)
Equiv(S, T) ==
  /\ NOut(S) = NOut(T) /\ NIn(S) = NIn(T)
  /\ Markov(S, Order(S) + Order(T) + 1) = Markov(T, Order(S) + Order(T) + 1)

\* run from state x0 (n x 1) on inputs us (sequence of q x 1): sequence of p x 1 outputs
RunSS(S, x0, us) ==
  FoldLeft(LAMBDA s, u : [x |-> MAdd(MMul(S.A, s.x), MMul(S.B, u)),
                          y |-> Append(s.y, MAdd(MMul(S.C, s.x), MMul(S.D, u)))],
           [x |-> x0, y |-> << >>], us).y

Cols(U) == [k \in 1..U.c |-> SubM(U, 0, U.r, k - 1, 1)]
FromCols(p, ys) == Mk(p, Len(ys), LAMBDA i, j : ys[j].e[i][1])
SimSS(S, U) == FromCols(NOut(S), RunSS(S, Zeros(Order(S), 1), Cols(U)))
SimSSFrom(S, x0, U) == FromCols(NOut(S), RunSS(S, x0, Cols(U)))

(***************************************************************************)
(* Transfer functions H = (num[1] + num[2] z^-1 + ...)/(den[1] + den[2]    *)
(* z^-1 + ...), den[1] # 0, as pairs of sequences.                         *)
(***************************************************************************)
PAt(p, k) == IF k \in 1..Len(p) THEN p[k] ELSE 0
PMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN << >>
              ELSE TLCEval([k \in 1..(Len(a) + Len(b) - 1) |->
                     SumTo(k, LAMBDA i : Mul(PAt(a, i), PAt(b, k + 1 - i)))])
PLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
PAdd(a, b) == TLCEval([k \in 1..PLen(a, b) |-> (PAt(a, k) + PAt(b, k)) % P])
PNeg(a) == TLCEval([k \in 1..Len(a) |-> Neg1(a[k])])
PSub(a, b) == PAdd(a, PNeg(b))
PScale(x, a) == TLCEval([k \in 1..Len(a) |-> Mul(x, a[k])])
\* equality of polynomials in z^-1 (trailing zeros are irrelevant)
PEq(a, b) == \A k \in 1..PLen(a, b) : PAt(a, k) = PAt(b, k)
TF(n, d) == [num |-> n, den |-> d]
IsTF(H) == Len(H.den) > 0 /\ H.den[1] # 0
TFEq(G, H) == PEq(PMul(G.num, H.den), PMul(H.num, G.den))
TFNorm(H) == LET iv == Inv(H.den[1]) IN TF(PScale(iv, H.num), PScale(iv, H.den))
TFMul(G, H) == TF(PMul(G.num, H.num), PMul(G.den, H.den))
TFAdd(G, H) == TF(PAdd(PMul(G.num, H.den), PMul(H.num, G.den)), PMul(G.den, H.den))
TFNeg(G) == TF(PNeg(G.num), G.den)
TFSub(G, H) == TFAdd(G, TFNeg(H))
TFConst(x) == TF(<<x>>, <<1>>)

\* first N samples of the impulse response of H (long division)
TFImpulse(H, N) ==
  LET iv == Inv(H.den[1])
      RECURSIVE go(_)
      go(h) == IF Len(h) = N THEN h
               ELSE LET k == Len(h) + 1
                        s == FoldLeft(LAMBDA a, i : (a + Mul(PAt(H.den, i + 1), h[k - i])) % P, 0, Idx(k - 1))
                    IN go(Append(h, Mul(iv, (PAt(H.num, k) + Neg1(s)) % P)))
  IN go(<< >>)

TFDeg(H) == (IF Len(H.num) > Len(H.den) THEN Len(H.num) ELSE Len(H.den)) - 1
\* a state-space and a transfer function describe the same SISO filter
SSisTF(S, H) ==
  /\ NOut(S) = 1 /\ NIn(S) = 1
  /\ LET N == Order(S) + TFDeg(H) + 1
         m == Markov(S, N)
     IN [k \in 1..N |-> m[k].e[1][1]] = TFImpulse(H, N)
\* canonical (controllable) realisation of a transfer function, used as reference
TFtoSS(H) ==
  LET G == TFNorm(H)
      n == TFDeg(G)
  IN SS(Mk(n, n, LAMBDA i, j : IF i = 1 THEN Neg1(PAt(G.den, j + 1)) ELSE IF i = j + 1 THEN 1 ELSE 0),
        Mk(n, 1, LAMBDA i, j : IF i = 1 THEN 1 ELSE 0),
        Mk(1, n, LAMBDA i, j : (PAt(G.num, j + 1) + Neg1(Mul(PAt(G.num, 1), PAt(G.den, j + 1)))) % P),
        Scalar(PAt(G.num, 1)))

(***************************************************************************)
(* State-space algebra                                                     *)
(***************************************************************************)
\* S1 * S2: the input goes through S2 first
SSSeries(S1, S2) ==
  SS(VCat(HCat(S1.A, MMul(S1.B, S2.C)), HCat(Zeros(Order(S2), Order(S1)), S2.A)),
     VCat(MMul(S1.B, S2.D), S2.B),
     HCat(S1.C, MMul(S1.D, S2.C)),
     MMul(S1.D, S2.D))
SSPar(S1, S2) ==
  SS(VCat(HCat(S1.A, Zeros(Order(S1), Order(S2))), HCat(Zeros(Order(S2), Order(S1)), S2.A)),
     VCat(S1.B, S2.B), HCat(S1.C, S2.C), MAdd(S1.D, S2.D))
SSNeg(S) == SS(S.A, S.B, MNeg(S.C), MNeg(S.D))
SSDiff(S1, S2) == SSPar(S1, SSNeg(S2))
SSPick(S, outs, ins) == SS(S.A, Pick(S.B, [i \in 1..Order(S) |-> i - 1], ins),
                           Pick(S.C, outs, [i \in 1..Order(S) |-> i - 1]), Pick(S.D, outs, ins))
SSSimil(S, T) == LET Ti == MInv(T) IN SS(MMul(MMul(Ti, S.A), T), MMul(Ti, S.B), MMul(S.C, T), S.D)

\* convolution of two impulse responses given as sequences of matrices
Conv(g, h) == [k \in 1..(IF Len(g) <= Len(h) THEN Len(g) ELSE Len(h)) |->
                 FoldLeft(LAMBDA a, i : MAdd(a, MMul(g[i], h[k + 1 - i])),
                          Zeros(g[1].r, h[1].c), Idx(k))]
=============================================================================
