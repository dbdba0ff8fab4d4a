------------------------------- MODULE MCLTI -------------------------------
(***************************************************************************)
(* Exhaustive check, over a small field, of the design of LTI: starting    *)
(* from every pair of small systems, every history of operations; each     *)
(* object carries, next to its representation, the meaning it must have    *)
(* (its first NM impulse response samples, obtained from the meanings of   *)
(* the operands only).                                                     *)
(***************************************************************************)
EXTENDS LTI
CONSTANTS NM, MaxObj, SSDims, TFOrders, Kinds, NewOps, Ops
VARIABLES heap, mean
D1 == {<<0,1,1>>,<<1,1,1>>,<<1,2,1>>,<<1,1,2>>}
D5 == {<<1,1,1>>,<<0,1,1>>,<<2,1,1>>}
D4s == {<<1,1,1>>,<<0,1,1>>}
D2 == {<<2,1,1>>}
D3 == {<<1,1,1>>,<<1,2,1>>}
D3s == {<<1,1,1>>,<<0,2,1>>,<<0,1,1>>}
D4 == {<<1,1,1>>,<<0,1,1>>,<<1,1,2>>}
Fld == 0..(P - 1)
AllM(r, c) == {[r |-> r, c |-> c, e |-> e] : e \in [1..r -> [1..c -> Fld]]}
AllSS(d) == {SS(A, B, C, D) : A \in AllM(d[1], d[1]), B \in AllM(d[1], d[3]), C \in AllM(d[2], d[1]), D \in AllM(d[2], d[3])}
AllTF(n) == {TF(b, a) : b \in [1..(n + 1) -> Fld], a \in {x \in [1..(n + 1) -> Fld] : x[1] # 0}}
Base == (IF "ss" \in Kinds THEN {OSS(0, s) : s \in UNION {AllSS(d) : d \in SSDims}} ELSE {})
        \cup (IF "tf" \in Kinds THEN {OTF(0, h) : h \in UNION {AllTF(n) : n \in TFOrders}} ELSE {})
Imp(o) == IF o.k = "ss" THEN Markov(o.s, NM)
          ELSE LET h == TFImpulse(o.h, NM) IN [k \in 1..NM |-> Scalar(h[k])]
Unit(x) == [k \in 1..NM |-> Scalar(IF k = 1 THEN x ELSE 0)]
MMap(f(_), g) == [k \in 1..Len(g) |-> f(g[k])]
M2(f(_, _), g, h) == [k \in 1..Len(g) |-> f(g[k], h[k])]
\* what the operation does to the meanings
Meaning(mn, o) ==
  CASE o.op = "mul" -> Conv(mn[o.i], mn[o.j])
    [] o.op = "add" -> M2(MAdd, mn[o.i], mn[o.j])
    [] o.op = "sub" -> M2(MSub, mn[o.i], mn[o.j])
    [] o.op = "neg" -> MMap(MNeg, mn[o.i])
    [] o.op \in {"smul", "rsmul"} -> MMap(LAMBDA m : MScale(o.x, m), mn[o.i])
    [] o.op \in {"sadd", "rsadd"} -> M2(MAdd, mn[o.i], Unit(o.x))
    [] o.op = "ssub" -> M2(MSub, mn[o.i], Unit(o.x))
    [] o.op = "rssub" -> M2(MSub, Unit(o.x), mn[o.i])
    [] o.op = "pick" -> MMap(LAMBDA m : Pick(m, o.outs, o.ins), mn[o.i])
    [] OTHER -> mn[o.i]        \* conversions, simplifications and similarities preserve the meaning
Sel(n) == {<<i>> : i \in 0..(n - 1)} \cup (IF n > 1 THEN {<<1, 0>>} ELSE {})
Ids == 1..Len(heap)
OpSet ==
  {[op |-> a, i |-> i, j |-> j] : a \in Alg2, i \in Ids, j \in Ids}
  \cup {[op |-> "neg", i |-> i] : i \in {x \in Ids : heap[x].k = "tf"}}
  \cup {[op |-> a, i |-> i, x |-> x] : a \in Scal, x \in Fld, i \in {x \in Ids : heap[x].k = "tf"}}
  \cup UNION {{[op |-> "pick", i |-> i, outs |-> s, ins |-> t] : s \in Sel(Outs(heap[i])), t \in Sel(Ins(heap[i]))} : i \in {x \in Ids : heap[x].k = "ss"}}
  \cup {[op |-> "simplify", i |-> i] : i \in {x \in Ids : heap[x].k = "ss"}}
  \cup {[op |-> "conv", i |-> i, to |-> t] : t \in {"ctrl", "obs"}, i \in {x \in Ids : heap[x].k = "tf"}}
  \cup {[op |-> "conv", i |-> i, to |-> "tf"] : i \in {x \in Ids : heap[x].k = "ss" /\ Order(heap[x].s) < P}}
  \cup UNION {{[op |-> "simil", i |-> i, T |-> T] : T \in AllM(Order(heap[i].s), Order(heap[i].s))} : i \in {x \in Ids : heap[x].k = "ss" /\ Order(heap[x].s) <= 2}}
Init == \E a \in Base : heap = <<a>> /\ mean = <<Imp(a)>>
New == \E a \in Base : heap' = Append(heap, a) /\ mean' = Append(mean, Imp(a))
Do(o) == IF InPlace(o) THEN heap' = [heap EXCEPT ![o.i] = Result(heap, o)] /\ UNCHANGED mean
         ELSE /\ Len(heap) < MaxObj
              /\ heap' = Append(heap, Result(heap, o)) /\ mean' = Append(mean, Meaning(mean, o))
Next == \/ Len(heap) < NewOps /\ New
        \/ \E o \in {x \in OpSet : x.op \in Ops} : Legal(heap, o) /\ Do(o)
Spec == Init /\ [][Next]_<<heap, mean>>
TypeOK == \A i \in Ids : IF heap[i].k = "ss" THEN IsSS(heap[i].s) /\ IsMat(heap[i].s.A) ELSE IsTF(heap[i].h) /\ heap[i].h.den[1] = 1
MeaningOK == \A i \in Ids : Imp(heap[i]) = mean[i]
\* a simplified system keeps no null state
MaxLen == \A i \in Ids : heap[i].k = "ss" => Order(heap[i].s) <= 6
\* the design in which the product applies its operands in the other order
BadSeries(a, b) == SS(VCat(HCat(a.A, MMul(a.B, b.C)), HCat(Zeros(Order(b), Order(a)), b.A)), VCat(MMul(a.B, b.D), b.B), HCat(a.C, MMul(a.D, b.C)), MAdd(a.D, b.D))
\* the design that drops the leading zeros of the numerators
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s
BadTFMul(G, H) == TF(Strip(PMul(G.num, H.num)), PMul(G.den, H.den))
\* the design of the original code: every state whose row of A is null is removed
BadNull(S) == {i \in 1..Order(S) : \A j \in 1..Order(S) : S.A.e[i][j] = 0}
\* an observable form built from the numerator alone
BadObs(H) == LET S == TFtoSS(H) IN SS(Tr(S.A), Mk(S.A.r, 1, LAMBDA i, j : PAt(TFNorm(H).num, i + 1)), Tr(S.B), S.D)
EveryOp == Alg2 \cup Scal \cup {"neg", "pick", "simplify", "conv", "simil"}
ConvOps == {"conv", "simplify"}
=============================================================================
