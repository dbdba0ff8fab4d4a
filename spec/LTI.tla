-------------------------------- MODULE LTI --------------------------------
(***************************************************************************)
(* Systems (state-spaces and transfer functions, in double or multiple     *)
(* precision) as values living in a heap, and the operations that build    *)
(* new ones from them.  An object is                                       *)
(*    [k |-> "ss" or "tf", mp |-> 0 or 1, s |-> state-space, h |-> tf]     *)
(* (the field that is not used is a constant).  The meaning of an object   *)
(* is its impulse response; every operation is defined on representations  *)
(* here, and MCLTI checks that it does to the meanings what it should.     *)
(***************************************************************************)
EXTENDS GF

NoTF == TF(<<0>>, <<1>>)
NoSS == SS(Zeros(0, 0), Zeros(0, 0), Zeros(0, 0), Zeros(0, 0))
OSS(mp, s) == [k |-> "ss", mp |-> mp, s |-> s, h |-> NoTF]
OTF(mp, h) == [k |-> "tf", mp |-> mp, s |-> NoSS, h |-> TFNorm(h)]
SISO(o) == o.k = "tf" \/ (NOut(o.s) = 1 /\ NIn(o.s) = 1)
Outs(o) == IF o.k = "tf" THEN 1 ELSE NOut(o.s)
Ins(o) == IF o.k = "tf" THEN 1 ELSE NIn(o.s)

(***************************************************************************)
(* det(zI - A) and C adj(zI - A) B by the Faddeev-LeVerrier recurrence     *)
(* (n < P)                                                                 *)
(***************************************************************************)
SStoTF(S) ==
  LET n == Order(S)
      d == S.D.e[1][1]
      RECURSIVE go(_, _, _, _)
      go(k, M, a, b) ==
        IF k > n THEN TF(b, a)
        ELSE LET AM == MMul(S.A, M)
                 ak == Neg1(Div(Trace1(AM), k % P))
                 bk == (Mul(d, ak) + MMul(MMul(S.C, M), S.B).e[1][1]) % P
             IN go(k + 1, MAdd(AM, MScale(ak, Eye(n))), Append(a, ak), Append(b, bk))
  IN go(1, Eye(n), <<1>>, <<d>>)

(***************************************************************************)
(* removal of the states that stay null: row of A and row of B both null,  *)
(* again until there is none                                               *)
(***************************************************************************)
Null(S) == {i \in 1..Order(S) : (\A j \in 1..Order(S) : S.A.e[i][j] = 0) /\ (\A j \in 1..NIn(S) : S.B.e[i][j] = 0)}
RECURSIVE Simplify(_)
Simplify(S) ==
  IF Null(S) = {} THEN S
  ELSE LET keep == SetToSortSeq({i - 1 : i \in 1..Order(S) \ Null(S)}, LAMBDA a, b : a < b)
           all(n) == [i \in 1..n |-> i - 1]
       IN Simplify(SS(Pick(S.A, keep, keep), Pick(S.B, keep, all(NIn(S))), Pick(S.C, all(NOut(S)), keep), S.D))

\* observable canonical form of a transfer function
TFtoSSObs(H) == LET S == TFtoSS(H) IN SS(Tr(S.A), Tr(S.C), Tr(S.B), S.D)
ToSS(o) == IF o.k = "ss" THEN o.s ELSE TFtoSS(o.h)

(***************************************************************************)
(* The operations.  o.i, o.j: operands; o.x: scalar (in GF(P)).            *)
(***************************************************************************)
Alg2 == {"mul", "add", "sub"}
Scal == {"smul", "rsmul", "sadd", "rsadd", "ssub", "rssub"}
Legal(hp, o) ==
  CASE o.op \in Alg2 ->
         LET a == hp[o.i] b == hp[o.j] IN
         /\ a.k = b.k
         /\ a.k = "tf" \/ (IF o.op = "mul" THEN Ins(a) = Outs(b) ELSE Ins(a) = Ins(b) /\ Outs(a) = Outs(b))
    [] o.op = "conv" -> o.to \in {"tf", "filter"} => SISO(hp[o.i])
    [] o.op = "simil" -> o.T.r = Order(hp[o.i].s) /\ Invertible(o.T)
    [] o.op = "newtf" -> IsTF(o.v)
    [] o.op = "newss" -> IsSS(o.v)
    [] OTHER -> TRUE
\* the object an operation returns
Result(hp, o) ==
  CASE o.op = "newtf" -> OTF(o.mp, o.v)
    [] o.op = "newss" -> OSS(o.mp, o.v)
    [] o.op \in Alg2 ->
         LET a == hp[o.i] b == hp[o.j] IN
         IF a.k = "ss" THEN OSS(a.mp, CASE o.op = "mul" -> SSSeries(a.s, b.s) [] o.op = "add" -> SSPar(a.s, b.s) [] o.op = "sub" -> SSDiff(a.s, b.s))
         ELSE OTF(a.mp, CASE o.op = "mul" -> TFMul(a.h, b.h) [] o.op = "add" -> TFAdd(a.h, b.h) [] o.op = "sub" -> TFSub(a.h, b.h))
    [] o.op = "neg" -> OTF(0, TFNeg(hp[o.i].h))
    [] o.op \in Scal ->
         LET h == hp[o.i].h x == TFConst(o.x) IN
         OTF(0, CASE o.op \in {"smul", "rsmul"} -> TFMul(h, x) [] o.op \in {"sadd", "rsadd"} -> TFAdd(h, x)
                  [] o.op = "ssub" -> TFSub(h, x) [] o.op = "rssub" -> TFSub(x, h))
    [] o.op = "pick" -> OSS(hp[o.i].mp, SSPick(hp[o.i].s, o.outs, o.ins))
    [] o.op = "simplify" -> OSS(hp[o.i].mp, Simplify(hp[o.i].s))
    [] o.op = "simil" -> OSS(hp[o.i].mp, SSSimil(hp[o.i].s, o.T))
    [] o.op = "conv" ->
         LET a == hp[o.i] IN
         CASE o.to = "ctrl" \/ (o.to = "ss") \/ (o.to = "filter" /\ a.k = "tf") -> OSS(a.mp, TFtoSS(a.h))
           [] o.to = "obs" -> OSS(a.mp, TFtoSSObs(a.h))
           [] o.to = "tf" \/ (o.to = "filter" /\ a.k = "ss") -> OTF(a.mp, SStoTF(a.s))
           [] o.to = "mp" -> [a EXCEPT !.mp = 1]
           [] o.to = "double" -> [a EXCEPT !.mp = 0]
\* a similarity is applied in place, everything else returns a new object
InPlace(o) == o.op = "simil"
=============================================================================
