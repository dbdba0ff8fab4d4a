------------------------------- MODULE MPArith -------------------------------
(***************************************************************************)
(* A heap of multiprecision matrices and the exact operations on them      *)
(* (fixif.func_aux).  An object is                                         *)
(*    [f |-> its format ("np": numpy.matrix, "mp": mpmath.matrix,          *)
(*           "MPF": MPFMatrix, "row": coefficients in a column),           *)
(*     sp |-> "" or the kind of special entry it holds ("inf", "nan",      *)
(*            "cplx"),                                                     *)
(*     m |-> its value, a matrix over GF(P)].                              *)
(* The values never depend on the working precision.                       *)
(***************************************************************************)
EXTENDS GF
Obj(f, sp, m) == [f |-> f, sp |-> sp, m |-> m]
IsULT(m) == m.r = m.c /\ \A i \in 1..m.r : m.e[i][i] = 1 /\ \A j \in (i + 1)..m.r : m.e[i][j] = 0
\* forward substitution, column by column: x_k = e_k - sum_{j<k} L_kj x_j
FwdCol(L, i) ==
  LET step(x, k) == Append(x, ((IF k = i THEN 1 ELSE 0) + Neg1(SumTo(k - 1, LAMBDA j : Mul(L.e[k][j], x[j])))) % P)
  IN FoldLeft(step, << >>, Idx(L.r))
LTInv(L) == LET cols == TLCEval([i \in 1..L.r |-> FwdCol(L, i)]) IN Mk(L.r, L.r, LAMBDA k, i : cols[i][k])
\* polynomials, as columns of coefficients
ColOf(s) == Mk(Len(s), 1, LAMBDA i, j : s[i])
ColSeq(m) == [i \in 1..m.r |-> m.e[i][1]]
PolyMul(a, b) ==
  LET n == Len(a) + Len(b) - 1
  IN [k \in 1..n |-> SumTo(k, LAMBDA j : Mul(PAt(a, j), PAt(b, k + 1 - j)))]
\* the product of the (z + p_i), i # skip (skip = 0 : none)
PolyProd(s, skip) == FoldLeft(LAMBDA acc, i : IF i = skip THEN acc ELSE PolyMul(acc, <<1, s[i]>>), <<1>>, Idx(Len(s)))
\* a * 2^s + b * 2^t is certainly an element of the format with p bits of mantissa and exponents of the last bit >= lo, of the first one <= hi
\* (w: number of bits of the integers a and b)
SpanFits(x, w, p, lo, hi) ==
  LET Top(s) == s + w + 1
      es == {e \in {<<x[1], x[2]>>, <<x[3], x[4]>>} : e[1] # 0}
  IN es = {} \/ LET mx == CHOOSE v \in {Top(e[2]) : e \in es} : \A e \in es : Top(e[2]) <= v
                    mn == CHOOSE v \in {e[2] : e \in es} : \A e \in es : v <= e[2]
                IN mx - mn <= p /\ mn >= lo /\ mx <= hi
Same(a, b) == a.r = b.r /\ a.c = b.c
Legal(h, o) ==
  LET a == h[o.i].m b == h[o.j].m IN
  CASE o.op = "new" -> TRUE
    [] o.op \in {"add", "sub", "padd", "psub"} -> Same(a, b)
    [] o.op \in {"mul", "pmul"} -> a.c = b.r
    [] o.op = "pbad" -> FALSE          \* an operand that is not a matrix
    [] o.op = "inv" -> IsULT(a)
    [] o.op = "equal" -> Same(a, b)
    [] o.op = "poly" -> TRUE
    [] o.op = "prod" -> Len(o.s) > 0
    [] OTHER -> TRUE
Fmt(h, o) == CASE o.op \in {"add", "sub", "mul", "inv", "padd", "psub", "pmul"} -> (IF h[o.i].f = "MPF" THEN "MPF" ELSE "mp")
               [] o.op = "tonp" -> "np"
               [] o.op = "wrap" -> "MPF"
               [] OTHER -> "mp"
Value(h, o) ==
  LET a == h[o.i].m b == h[o.j].m IN
  CASE o.op \in {"add", "padd"} -> MAdd(a, b)
    [] o.op \in {"sub", "psub"} -> MSub(a, b)
    [] o.op \in {"mul", "pmul"} -> MMul(a, b)
    [] o.op = "inv" -> LTInv(a)
    [] o.op = "poly" -> ColOf(PolyMul(ColSeq(a), ColSeq(b)))
    [] o.op = "prod" -> ColOf(PolyProd(o.s, o.skip))
    [] OTHER -> a             \* conversions
=============================================================================
