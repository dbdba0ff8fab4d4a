------------------------------- MODULE SIFTrace -------------------------------
(***************************************************************************)
(* Trace validation of SIF objects: the recorded calls drive the actions   *)
(* of SIFObj (its matrix generator is bound to the recorded argument), and *)
(* every recorded observation is compared with the value the specification *)
(* computes from the current abstract state.                               *)
(***************************************************************************)
EXTENDS SIFObj, Tilde, TraceLib
VARIABLE l
Ev == Trace[l]
FromTrace(kind, r, c) == {Ev.v}
AllOps == {"set", "setZ", "setd", "setdZ", "read", "new", "quant"}

\* the same matrices (-2 standing for any value), or at least the same behaviour
SSEq(e, S) == \/ MEq(e.A, S.A) /\ MEq(e.B, S.B) /\ MEq(e.C, S.C) /\ MEq(e.D, S.D)
              \/ /\ IsMat(e.A) /\ IsMat(e.B) /\ IsMat(e.C) /\ IsMat(e.D)
                 /\ IsSS(e) /\ Equiv(e, S)

DBlock(o, b) == GetBlock(o.dz, DimsOf(o.z), b)
IMEq(a, b) == a.r = b.r /\ a.c = b.c /\ a.e = b.e

\* number of additions: every row sums its non-zero terms; the diagonal of J is not a term
Count(m, ok(_, _)) == Cardinality({ij \in (1..m.r) \X (1..m.c) : ok(ij[1], ij[2])})
NbMul(o) == Count(o.dz, LAMBDA i, j : o.dz.e[i][j] # 0)
RowTerms(o, i) == Cardinality({j \in 1..IZ(o.z).c : IZ(o.z).e[i][j] # 0})
NbAdd(o) == LET Z == IZ(o.z) IN Count(Z, LAMBDA i, j : Z.e[i][j] # 0) - l_(o.z) - Z.r
StrictLower(o) == \E i, j \in 1..n_(o.z) : j < i /\ o.z.PP.e[i][j] # 0

\* with l intermediate variables, eps drives all the variables
DeltaSIF(z) == LET d == l_(z) + n_(z) + p_(z) IN
  [z EXCEPT !.N = Mk(l_(z), d, LAMBDA i, j : IF j = i THEN 1 ELSE 0),
            !.Q = Mk(n_(z), d, LAMBDA i, j : IF j = l_(z) + i THEN 1 ELSE 0),
            !.S = Mk(p_(z), d, LAMBDA i, j : IF j = l_(z) + n_(z) + i THEN 1 ELSE 0)]

(* degraded forms: the coefficients but -1, 0 and 1 are rounded to w bits *)
StarVal(a, w) == IF a \in {-1, 0, 1} THEN a * 2^QUp ELSE QuantVal(a, w, QUp)
StarM(m, w) == Mk(m.r, m.c, LAMBDA i, j : StarVal(m.e[i][j], w))
StarObj(o, w) == NewObj([J |-> StarM(o.z.J, w), K |-> StarM(o.z.K, w), L |-> StarM(o.z.L, w), M |-> StarM(o.z.M, w), N |-> StarM(o.z.N, w),
                         PP |-> StarM(o.z.PP, w), Q |-> StarM(o.z.Q, w), R |-> StarM(o.z.R, w), S |-> StarM(o.z.S, w)], QUp, TRUE, NoMat)
\* the variables computed at each step, as outputs: t(k+1), x(k+1), y(k)
TxySys(z) == LET S == SysOf(z) IN
  SS(S.A, S.B, VCat(MMul(InvJ(z), z.M), VCat(S.A, S.C)), VCat(MMul(InvJ(z), z.N), VCat(S.B, S.D)))
TxyFails(rs, v) ==
  IF \E r \in 1..Len(rs) : "err" \in DOMAIN rs[r] THEN {"no worst-case peak gain of the variables"}
  ELSE Unless(\A r \in 1..Len(rs) : SSEq(rs[r], TxySys(v)) \/ SSEq(rs[r], HzetaSys(v)), "worst-case peak gain of the variables")
StarFails(e) ==
  LET o == obj[e.id] v == FieldView(o) vt == FieldView(StarObj(o, e.w)) IN
  TxyFails(e.txy, v) \cup
  UNION {Unless(MEq(e.zt[b], Block(vt, b)), "degraded " \o b) : b \in BlockNames}
  \cup (IF ~(\A b \in DOMAIN e.ze : IsMat(e.ze[b])) \/ ~DimOK(e.ze) \/ ~Invertible(e.ze.J) THEN {"error form"}
        ELSE Unless(p_(e.ze) = p_(v) /\ q_(e.ze) = q_(v) + l_(v) + n_(v) + p_(v), "error form: inputs and outputs")
             \cup (IF p_(e.ze) # p_(v) \/ q_(e.ze) # q_(v) + l_(v) + n_(v) + p_(v) THEN {}
                   ELSE Unless(Equiv(SysOf(e.ze), ErrSys(v, vt)), "error form: behaviour")
                        \cup Unless(SSEq(e.dss, ErrSys(v, vt)), "error form: dSS")))

Pow2(k) == IF k >= 0 THEN PowMod(2, k) ELSE Inv(PowMod(2, -k))
CellClass(o, i, j) ==
  LET x == IZ(o.z).e[i][j] u == 2^(o.sc) IN
  IF x = u THEN "one" ELSE IF x = -u THEN "minusone" ELSE IF x = 0 THEN "" ELSE IF o.dz.e[i][j] = 0 THEN "power2" ELSE "coef"

ObsFails(e) ==
  LET o == obj[e.id]
      v == FieldView(o)
  IN CASE e.c = "blocks" ->
            UNION {Unless(MEq(e.m[b], Block(v, b)), b) : b \in BlockNames}
            \cup Unless(MEq(e.m["Z"], ZMat(v)), "Z") \cup Unless(MEq(e.m["Zcomp"], ZComp(v)), "Zcomp")
            \cup Unless(e.size = DimsOf(o.z), "size")
       [] e.c = "dblocks" ->
            UNION {Unless(IMEq(e.m[b], DBlock(o, b)), "d" \o b) : b \in BlockNames}
            \cup Unless(IMEq(e.m["Z"], o.dz), "dZ")
       [] e.c = "sys" -> LET S == SysOf(v) IN
            Unless(MEq(e.invJ, InvJ(v)), "invJ")
            \cup Unless(MEq(e.AZ, S.A), "AZ") \cup Unless(MEq(e.BZ, S.B), "BZ")
            \cup Unless(MEq(e.CZ, S.C), "CZ") \cup Unless(MEq(e.DZ, S.D), "DZ")
            \cup Unless(SSEq(e.dss, S), "dSS")
       [] e.c = "exact" -> Unless(SSEq(e.dss, SysOf(v)), "to_dSSexact")
       [] e.c = "hu" -> Unless(SSEq(e.dss, HuSys(v)), "Hu")
       [] e.c = "heps" -> Unless(SSEq(e.dss, HepsSys(v)), "Hepsilon")
       [] e.c = "hzeta" -> Unless(SSEq(e.dss, HzetaSys(v)), "Hzeta")
       [] e.c = "delta" -> Unless(SSEq(e.dss, SysOf(DeltaSIF(v))), "deltaSIF")
       [] e.c = "sim" -> Unless(MEq(e.y, SimOut(v, F(e.u, 0))), "simulate")
       [] e.c = "crun" -> Unless(MEq(e.y, SimOut(v, F(e.u, 0))), e.what)
       [] e.c = "tf" -> LET h == TF(e.num, e.den) IN
            IF \E i \in DOMAIN e.num : e.num[i] = -2 THEN {} ELSE IF \E i \in DOMAIN e.den : e.den[i] = -2 THEN {}
            ELSE Unless(/\ \A i \in DOMAIN e.num : e.num[i] >= 0
                        /\ \A i \in DOMAIN e.den : e.den[i] >= 0
                        /\ IsTF(h) /\ SSisTF(SysOf(v), h), "to_dTF")
       [] e.c = "tikz" -> Unless(e.cells = [i \in 1..o.dz.r |-> [j \in 1..o.dz.c |-> CellClass(o, i, j)]], "TikZ")
       [] e.c = "tpm" -> LET Z == ZMat(v) l0 == IF l_(v) = 0 THEN 1 ELSE l_(v) IN
            \* without intermediate variable, an empty first row and an empty first column
            LET k == l0 - l_(v) IN
            Unless(Len(e.cells) = Z.r + k /\ \A i \in 1..(Z.r + k) : Len(e.cells[i]) = Z.c + k /\ \A j \in 1..(Z.c + k) :
                      e.cells[i][j] = (IF i <= k \/ j <= k THEN -3 ELSE IF Z.e[i - k][j - k] = 0 /\ e.sparse THEN -3 ELSE Z.e[i - k][j - k]), "tpmatrix")
            \cup Unless(e.lines = <<l0, l0 + n_(v), l0, l0 + n_(v)>>, "tpmatrix lines")
       [] e.c = "nbop" -> Unless(e.mul = NbMul(o), "multiplications") \cup Unless(e.add = NbAdd(o), "additions")
                          \cup Unless(e.pnut = StrictLower(o), "isPnut")

Fails ==
  CASE Ev.ev = "begin" -> {}
    [] Ev.ev = "obs" -> IF Ev.id \in Live THEN ObsFails(Ev) ELSE {"no such object"}
    [] Ev.ev = "star" -> StarFails(Ev)
    [] Ev.ev = "arg" -> Unless(Ev.was = Ev.now, "caller's matrix modified")
    [] Ev.ev = "triv" -> Unless(Ev.got = (IF Ev.k = 0 \/ Ev.k >= 29 THEN 0 ELSE 1), "marker")
    [] Ev.ev = "num1" -> Unless(Ev.got = Mul(Ev.a % P, Pow2(Ev.x)), "value")
    [] Ev.ev = "quant1" -> Unless(Ev.got = (IF Ev.a = 0 THEN 0 ELSE LET k == Quant(Ev.a, Ev.w) IN Mul(k[1] % P, Pow2(k[2] + Ev.x))), "rounding")
    [] Ev.ev = "cfail" -> Unless(Ev.got # "outputs", "failed compilation not reported")
    [] Ev.ev = "try" -> Unless(Ev.got = "raise", "accepted")
    [] Ev.ev = "reject" -> Unless(Ev.got = "ValueError", "not rejected")
    [] Ev.ev \in Broken -> {Ev.ev}
    [] OTHER -> {}

TNew == /\ obj' = (Ev.id :> NewObj(Ev.z, Ev.sc, Ev.auto, Ev.dz)) @@ obj
        /\ UNCHANGED hist
Stutter == UNCHANGED <<obj, hist>>
TraceStep ==
  CASE Ev.ev = "begin" -> obj' = [i \in {} |-> 0] /\ UNCHANGED hist
    [] Ev.ev = "new" -> TNew
    [] Ev.ev = "set" -> Set(Ev.id, Ev.b)
    [] Ev.ev = "setZ" -> obj' = [obj EXCEPT ![Ev.id] = SetZTo(@, Ev.v)] /\ UNCHANGED hist
    [] Ev.ev = "setd" -> SetD(Ev.id, Ev.b)
    [] Ev.ev = "setdZ" -> SetDZ(Ev.id)
    [] Ev.ev = "quant" -> obj' = obj @@ (Ev.to :> QuantObj(obj[Ev.id], Ev.w)) /\ UNCHANGED hist
    [] Ev.ev = "star" -> obj' = obj @@ (Ev.to :> StarObj(obj[Ev.id], Ev.w)) /\ UNCHANGED hist
    [] Ev.ev = "obs" -> IF Ev.c \in Lazy /\ Ev.id \in Live THEN Read(Ev.id, Ev.c) ELSE Stutter
    [] OTHER -> Stutter

TraceInit == l = 1 /\ obj = [i \in {} |-> 0] /\ ops = 0 /\ hist = << >>
TraceNext == /\ l <= Len(Trace)
             /\ Verdict(l, Fails) = TRUE
             /\ TraceStep
             /\ l' = l + 1 /\ UNCHANGED ops
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
