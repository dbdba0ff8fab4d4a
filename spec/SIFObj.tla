-------------------------------- MODULE SIFObj --------------------------------
(***************************************************************************)
(* SIF objects as programs see them: a mutable set of coefficients with    *)
(* derived quantities, some of which are computed lazily and cached.       *)
(*                                                                         *)
(* Objects are numbered 1..MaxObj; object 1 and 2 may be built from the    *)
(* same matrices; Quantize copies an object.  The coefficients are small   *)
(* integers scaled by 2^-sc (so triviality is decidable); the systems are  *)
(* computed over GF(P).                                                    *)
(*                                                                         *)
(* Used twice: exhaustively with tiny constants (does the design - reset   *)
(* the caches and the markers at every coefficient assignment - keep every *)
(* object coherent?), and in simulation mode to generate the histories     *)
(* that are replayed on the real classes (hist is printed as JSON).        *)
(***************************************************************************)
EXTENDS SIF, Json
CONSTANTS Dims,        \* set of <<l, n, p, q>>
          Scales,      \* set of sc
          MaxObj,
          Ops,         \* enabled operations, subset of {"set","setZ","setd","setdZ","read","new","quant"}
          MaxOps,
          Half,        \* FALSE: the design; TRUE: a refused assignment has already replaced the coefficients (a broken design)
          Reset,       \* TRUE: the design; FALSE: caches survive assignments (a broken design)
          KeepHist,
          Widths,        \* word-lengths tried
          Runs,          \* numbers of initial states drawn (generation), {1} otherwise
          Pick1(_),        \* the choices explored: All of them, or One drawn at random (generation)
          GenMats(_, _, _)   \* (kind, r, c) -> set of integer matrices

VARIABLES obj,         \* id -> object record; domain = live objects
          ops,         \* number of operations done
          hist

vars == <<obj, ops, hist>>

All(S) == S
Lazy == {"hu", "heps", "hzeta"}
NoCache == [c \in Lazy |-> << >>]     \* a cache holds nothing, or one system
ReadKinds == Lazy \cup {"sys", "sim", "blocks", "dblocks", "nbop", "exact", "delta"}

\* integer matrices -> GF(P)
F(m, sc) == LET iv == Inv(PowMod(2, sc)) IN Mk(m.r, m.c, LAMBDA i, j : Mul(m.e[i][j] % P, iv))
FieldView(o) == TLCEval([J |-> F(o.z.J, o.sc), K |-> F(o.z.K, o.sc), L |-> F(o.z.L, o.sc), M |-> F(o.z.M, o.sc),
                 N |-> F(o.z.N, o.sc), PP |-> F(o.z.PP, o.sc), Q |-> F(o.z.Q, o.sc), R |-> F(o.z.R, o.sc), S |-> F(o.z.S, o.sc)])

\* a coefficient num * 2^-sc is trivial iff 0 or +- a power of two
IsPow2(a) == a \in {2^k : k \in 0..30}
Abs(a) == IF a < 0 THEN -a ELSE a
Trivial(a) == a = 0 \/ IsPow2(Abs(a))
INeg(m) == [r |-> m.r, c |-> m.c, e |-> TLCEval([i \in 1..m.r |-> [j \in 1..m.c |-> -m.e[i][j]]])]
IZ(z) == VCat(HCat(HCat(INeg(z.J), z.M), z.N), VCat(HCat(HCat(z.K, z.PP), z.Q), HCat(HCat(z.L, z.R), z.S)))
IFromZ(Z, d) == LET w == FromZ(Z, d[1], d[2], d[3], d[4]) IN [w EXCEPT !.J = INeg(SubM(Z, 0, d[1], 0, d[1]))]
Markers(z) == LET Z == IZ(z) IN Mk(Z.r, Z.c, LAMBDA i, j : IF Trivial(Z.e[i][j]) THEN 0 ELSE 1)
DimsOf(z) == <<l_(z), n_(z), p_(z), q_(z)>>

BlockPos(d, b) ==   \* row offset, rows, column offset, columns of block b in Z
  LET l == d[1] n == d[2] p == d[3] q == d[4] IN
  CASE b = "J" -> <<0, l, 0, l>> [] b = "K" -> <<l, n, 0, l>> [] b = "L" -> <<l + n, p, 0, l>>
    [] b = "M" -> <<0, l, l, n>> [] b = "N" -> <<0, l, l + n, q>> [] b = "P" -> <<l, n, l, n>>
    [] b = "Q" -> <<l, n, l + n, q>> [] b = "R" -> <<l + n, p, l, n>> [] b = "S" -> <<l + n, p, l + n, q>>
PutBlock(Z, d, b, v) == LET w == BlockPos(d, b) IN
  Mk(Z.r, Z.c, LAMBDA i, j : IF i > w[1] /\ i <= w[1] + w[2] /\ j > w[3] /\ j <= w[3] + w[4]
                             THEN v.e[i - w[1]][j - w[3]] ELSE Z.e[i][j])
GetBlock(Z, d, b) == LET w == BlockPos(d, b) IN SubM(Z, w[1], w[2], w[3], w[4])

NoMat == Zeros(0, 0)
MkZ(J, K, L, M, N, X, Q, R, S) == [J |-> J, K |-> K, L |-> L, M |-> M, N |-> N, PP |-> X, Q |-> Q, R |-> R, S |-> S]
NewObj(z, sc, auto, dz) == [z |-> z, sc |-> sc, dz |-> IF auto THEN Markers(z) ELSE dz, cache |-> NoCache]

\* w-bit two's complement round-to-nearest (half up) of num * 2^-sc, as <<mantissa, lsb>>: value = mantissa * 2^lsb
RECURSIVE Log2From(_, _)
Log2From(a, k) == IF 2^k >= a THEN k ELSE Log2From(a, k + 1)
Log2Ceil(a) == Log2From(a, 0)          \* a >= 1
RoundShift(a, s) == IF s <= 0 THEN a * 2^(-s) ELSE (a + 2^(s - 1)) \div (2^s)   \* a / 2^s, half up
QuantAt(a, w, msb) == <<RoundShift(a, msb - w + 1), msb - w + 1>>
QFits(k, w) == k >= -(2^(w - 1)) /\ k <= 2^(w - 1) - 1
Quant(a, w) ==   \* a # 0, unscaled integer
  LET m0 == Log2Ceil(Abs(a))
      m == IF a > 0 /\ a = 2^m0 THEN m0 + 1 ELSE m0
  IN IF QFits(QuantAt(a, w, m)[1], w) THEN QuantAt(a, w, m)
     ELSE IF QFits(QuantAt(a, w, m + 1)[1], w) THEN QuantAt(a, w, m + 1)
     ELSE <<IF a < 0 THEN -(2^(w - 1)) ELSE 2^(w - 1) - 1, m - w + 1>>
\* rounded value as an integer scaled by 2^-(sc + up): needs up >= -lsb
QuantVal(a, w, up) == IF a = 0 THEN 0 ELSE LET k == Quant(a, w) IN k[1] * 2^(k[2] + up)
QUp == 4
QuantM(m, w) == Mk(m.r, m.c, LAMBDA i, j : QuantVal(m.e[i][j], w, QUp))
QuantZ(z, w) == [J |-> Mk(z.J.r, z.J.c, LAMBDA i, j : -QuantVal(-z.J.e[i][j], w, QUp)),      \* the coefficients are those of Z, so -J
                 K |-> QuantM(z.K, w), L |-> QuantM(z.L, w), M |-> QuantM(z.M, w), N |-> QuantM(z.N, w), PP |-> QuantM(z.PP, w),
                 Q |-> QuantM(z.Q, w), R |-> QuantM(z.R, w), S |-> QuantM(z.S, w)]
\* the least significant bit of every rounded coefficient is at least 2^-QUp (so that they are integers scaled by 2^-QUp)
IsQuantizable(z, w) ==
  LET up(m) == \A i \in 1..m.r, j \in 1..m.c : m.e[i][j] = 0 \/ Quant(m.e[i][j], w)[2] >= -QUp
  IN /\ w <= QUp + 1
     /\ up(z.K) /\ up(z.L) /\ up(z.M) /\ up(z.N) /\ up(z.PP) /\ up(z.Q) /\ up(z.R) /\ up(z.S) /\ up(z.J)
     /\ Invertible(F(TLCEval(QuantZ(z, w).J), QUp))

LazyValue(o, c) == CASE c = "hu" -> HuSys(FieldView(o)) [] c = "heps" -> HepsSys(FieldView(o)) [] c = "hzeta" -> HzetaSys(FieldView(o))

Assign(o, z) == [o EXCEPT !.z = z, !.dz = Markers(z), !.cache = IF Reset THEN NoCache ELSE @]

Log(e) == hist' = IF KeepHist THEN Append(hist, e) ELSE hist
JKind(o) == IF o.sc = QUp THEN "J4" ELSE "J"     \* (in a scaled object the unit is 2^sc)
Live == DOMAIN obj
Free(j) == j \in 1..MaxObj \ Live /\ \A i \in 1..(j - 1) : i \in Live
Sz(d, b) == LET w == BlockPos(d, b) IN <<w[2], w[4]>>
\* the sets of matrices are enumerated by \E (never bound by LET: generation draws them at random)
Init == /\ ops = 0
        /\ \E run \in Runs : \E d \in Pick1(Dims), sc \in Pick1(Scales) :   \* (nested: drawn again for every run)
            LET l == d[1] n == d[2] p == d[3] q == d[4] IN
            \E J \in GenMats("J", l, l), K \in GenMats("K", n, l), L \in GenMats("L", p, l), M \in GenMats("M", l, n),
               N \in GenMats("N", l, q), X \in GenMats("P", n, n), Q \in GenMats("Q", n, q), R \in GenMats("R", p, n), S \in GenMats("S", p, q) :
              /\ Invertible(F(J, sc)) = TRUE
              /\ obj = (1 :> NewObj(MkZ(J, K, L, M, N, X, Q, R, S), sc, TRUE, NoMat))
              /\ hist = IF KeepHist THEN << [ev |-> "new", id |-> 1, sc |-> sc, z |-> MkZ(J, K, L, M, N, X, Q, R, S), same |-> 0, auto |-> TRUE, dz |-> NoMat] >> ELSE << >>

\* (TLC does not cache LETs and arguments at the level of an action: new objects are built inside operators,
\*  and guards are written 'guard = TRUE' so that they are evaluated as expressions)
Set(i, b) ==
  /\ "set" \in Ops
  /\ \E v \in GenMats(IF b = "J" THEN JKind(obj[i]) ELSE b, Sz(DimsOf(obj[i].z), b)[1], Sz(DimsOf(obj[i].z), b)[2]) :
       /\ (b = "J" => Invertible(F(v, obj[i].sc))) = TRUE
       /\ obj' = [obj EXCEPT ![i] = Assign(@, WithBlock(@.z, b, v))]
       /\ Log([ev |-> "set", id |-> i, b |-> b, v |-> v])
SetZTo(o, Z) == Assign(o, IFromZ(Z, DimsOf(o.z)))
WithJ(Z, d, J) == PutBlock(Z, d, "J", INeg(J))
SetZ(i) ==
  /\ "setZ" \in Ops
  /\ \E J \in GenMats(JKind(obj[i]), l_(obj[i].z), l_(obj[i].z)), v \in GenMats("Z", obj[i].dz.r, obj[i].dz.c) :
       /\ Invertible(F(J, obj[i].sc)) = TRUE
       /\ \E Z \in {WithJ(v, DimsOf(obj[i].z), J)} :
            /\ obj' = [obj EXCEPT ![i] = SetZTo(@, Z)]
            /\ Log([ev |-> "setZ", id |-> i, v |-> Z])
SetD(i, b) ==
  /\ "setd" \in Ops
  /\ LET o == obj[i] d == DimsOf(o.z) IN
     \E v \in GenMats("d", Sz(d, b)[1], Sz(d, b)[2]) :
       /\ obj' = [obj EXCEPT ![i].dz = PutBlock(o.dz, d, b, v)]
       /\ Log([ev |-> "setd", id |-> i, b |-> b, v |-> v])
SetDZ(i) ==
  /\ "setdZ" \in Ops
  /\ LET o == obj[i] IN
     \E v \in GenMats("d", o.dz.r, o.dz.c) :
       /\ obj' = [obj EXCEPT ![i].dz = v]
       /\ Log([ev |-> "setdZ", id |-> i, v |-> v])
Read(i, c) ==
  /\ "read" \in Ops
  /\ obj' = IF c \in Lazy /\ obj[i].cache[c] = << >> THEN [obj EXCEPT ![i].cache[c] = <<LazyValue(obj[i], c)>>] ELSE obj
  /\ Log([ev |-> "read", id |-> i, c |-> c])
\* an assignment that must be refused: a singular J, or a matrix of another size; nothing changes
Singular(l) == IF l = 0 THEN NoMat ELSE Mk(l, l, LAMBDA i, j : IF i = l /\ l > 1 THEN (IF j = 1 THEN 1 ELSE 0) ELSE IF i = j /\ l > 1 THEN 1 ELSE 0)
BadKinds(d) == {"bigger"} \cup (IF d[1] > 0 THEN {"singular", "singularZ"} ELSE {}) \cup (IF d[1] > 1 THEN {"unit"} ELSE {})
BadArg(o, k, b) ==
  LET d == DimsOf(o.z) IN
  CASE k = "singular" -> [b |-> "J", v |-> Singular(d[1])]
    [] k = "singularZ" -> [b |-> "Z", v |-> WithJ(IZ(o.z), d, Singular(d[1]))]
    [] k = "unit" -> [b |-> "J", v |-> Eye(1)]
    [] k = "bigger" -> LET z == IF b = "Z" \/ Sz(d, b)[1] = 0 THEN "Z" ELSE b
                           sz == IF z = "Z" THEN <<o.dz.r, o.dz.c>> ELSE Sz(d, z)
                       IN [b |-> z, v |-> Mk(sz[1] + 1, sz[2], LAMBDA i, j : IF i = j THEN 1 ELSE 0)]
Try(i) ==
  /\ "try" \in Ops
  /\ \E k \in Pick1(BadKinds(DimsOf(obj[i].z))), b \in Pick1(BlockNames \cup {"Z"}) : \E a \in {BadArg(obj[i], k, b)} :
       /\ obj' = IF Half /\ k = "singular" THEN [obj EXCEPT ![i].z.J = a.v] ELSE obj
       /\ Log([ev |-> "try", id |-> i, b |-> a.b, v |-> a.v])
\* a second object built from the same matrices (aliasing), with explicit or automatic markers
NewSame(i, j) ==
  /\ "new" \in Ops /\ Free(j)
  /\ \E v \in GenMats("d", obj[i].dz.r, obj[i].dz.c), auto \in Pick1(BOOLEAN) :
       /\ obj' = obj @@ (j :> NewObj(obj[i].z, obj[i].sc, auto, v))
       /\ Log([ev |-> "new", id |-> j, sc |-> obj[i].sc, z |-> obj[i].z, same |-> i, auto |-> auto, dz |-> v])
QuantObj(o, w) == LET zq == QuantZ(o.z, w) IN NewObj(zq, QUp, TRUE, NoMat)
Quantize(i, j) ==
  /\ "quant" \in Ops /\ Free(j) /\ obj[i].sc = 0
  /\ \E w \in Pick1(Widths) :
       /\ IsQuantizable(obj[i].z, w) = TRUE
       /\ obj' = obj @@ (j :> QuantObj(obj[i], w))
       /\ Log([ev |-> "quant", id |-> i, to |-> j, w |-> w])

\* generation: print the history once it is complete
Emit == /\ KeepHist /\ ops = MaxOps /\ PrintT("GEN " \o ToJson(hist))
        /\ ops' = ops + 1 /\ UNCHANGED <<obj, hist>>
Kinds == {k \in Ops : k \in {"new", "quant"} => \E j \in 1..MaxObj : Free(j)}
Do(k, i) ==
  CASE k = "set" -> \E b \in Pick1(BlockNames) : Set(i, b)
    [] k = "setZ" -> SetZ(i)
    [] k = "setd" -> \E b \in Pick1(BlockNames) : SetD(i, b)
    [] k = "setdZ" -> SetDZ(i)
    [] k = "try" -> Try(i)
    [] k = "read" -> \E c \in Pick1(ReadKinds) : Read(i, c)
    [] k = "new" -> \E j \in 1..MaxObj : NewSame(i, j)
    [] k = "quant" -> \E j \in 1..MaxObj : Quantize(i, j)
Advance == /\ ops' = ops + 1
           /\ \E i \in Pick1(Live), k \in Pick1(Kinds) : Do(k, i)
Next == IF ops < MaxOps THEN Advance ELSE Emit
Spec == Init /\ [][Next]_vars

\* what a lazily built system answers is what a fresh object would answer
Coherent == \A i \in Live : \A c \in Lazy : obj[i].cache[c] # << >> => obj[i].cache[c] = <<LazyValue(obj[i], c)>>
\* the markers of an object whose last assignment was a coefficient are those of its coefficients
TypeOK == \A i \in Live : DimOK(obj[i].z) /\ obj[i].dz.r = IZ(obj[i].z).r /\ obj[i].dz.c = IZ(obj[i].z).c
BlocksOfZ == \A i \in Live : IFromZ(IZ(obj[i].z), DimsOf(obj[i].z)) = obj[i].z
Regular == \A i \in Live : Invertible(F(obj[i].z.J, obj[i].sc))
\* assignments to one object never touch the others
Isolation == [][\A i, j \in Live : (i # j /\ obj'[i] # obj[i]) => obj'[j] = obj[j]]_vars
=============================================================================
