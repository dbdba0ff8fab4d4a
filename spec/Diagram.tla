------------------------------- MODULE Diagram -------------------------------
(***************************************************************************)
(* Simulink diagrams: blocks connected by wires, some blocks being         *)
(* subsystems that hold blocks; their synchronous meaning (a state-space), *)
(* and the steps of the import: the subsystems are opened, an equation is  *)
(* built for each block, the sums and the gains used by one equation are   *)
(* put inside it, and the remaining equations are read as a SIF.           *)
(*                                                                         *)
(* A block: [k, par, port, g, sg, n]                                       *)
(*   k    "in" "out" "gain" "sum" "delay" "sub" ("gone": removed)          *)
(*   par  subsystem that holds the block (its index; 0: top level)         *)
(*   port number of an inport or outport     g   gain (in GF(P))           *)
(*   sg   signs of a sum (1 or P-1), one per port    n  length of a delay  *)
(* A wire: <<s, sp, d, dp>>: from port sp of block s to port dp of block d *)
(***************************************************************************)
EXTENDS SIF
Blk(k, par, port, g, sg, n) == [k |-> k, par |-> par, port |-> port, g |-> g, sg |-> sg, n |-> n]
Of(d, k) == {b \in 1..Len(d.b) : d.b[b].k = k}
Top(d, k) == {b \in Of(d, k) : d.b[b].par = 0}
ByPort(d, S) == SetToSortSeq(S, LAMBDA a, b : d.b[a].port < d.b[b].port)
\* what feeds port p of block b: << >> or <<block, port>>
Feeds(d, b, p) == LET w == {i \in 1..Len(d.w) : d.w[i][3] = b /\ d.w[i][4] = p} IN IF w = {} THEN << >> ELSE LET i == CHOOSE i \in w : TRUE IN <<d.w[i][1], d.w[i][2]>>
\* the outport (inport) block inside subsystem s for its port p
Inside(d, s, k, p) == CHOOSE b \in Of(d, k) : d.b[b].par = s /\ d.b[b].port = p
\* the block that holds the value of an output port
Holder(d, r) == IF d.b[r[1]].k = "sub" THEN Inside(d, r[1], "out", r[2]) ELSE r[1]
\* the blocks that feed block b (once per port), with their coefficients
Terms(d, b) ==
  LET one(p, c) == LET f == Feeds(d, b, p) IN IF f = << >> THEN << >> ELSE <<[s |-> Holder(d, f), c |-> c]>>
      x == d.b[b] IN
  CASE x.k = "in" /\ x.par # 0 -> LET f == Feeds(d, x.par, x.port) IN IF f = << >> THEN << >> ELSE <<[s |-> Holder(d, f), c |-> 1]>>
    [] x.k = "in" \/ x.k = "sub" \/ x.k = "gone" -> << >>
    [] x.k = "gain" -> one(1, x.g)
    [] x.k = "sum" -> FoldLeft(LAMBDA a, p : a \o one(p, x.sg[p]), << >>, Idx(Len(x.sg)))
    [] OTHER -> one(1, 1)

(***************************************************************************)
(* Equations: for each block, the coefficient of each other one.           *)
(***************************************************************************)
Acc(nb, ts) == [s \in 1..nb |-> FoldLeft(LAMBDA a, t : IF t.s = s THEN (a + t.c) % P ELSE a, 0, ts)]
Equations(d) == TLCEval([b \in 1..Len(d.b) |-> TLCEval(Acc(Len(d.b), Terms(d, b)))])
\* algebraic loop: the blocks that are neither inputs nor delays cannot be ordered
Instant(d) == (1..Len(d.b)) \ (Of(d, "delay") \cup Of(d, "gone") \cup Of(d, "sub"))
Deps(d) == TLCEval([b \in 1..Len(d.b) |-> IF b \in Instant(d) THEN {t.s : t \in ToSet(Terms(d, b))} \cap Instant(d) ELSE {}])
Peel(dep, S) == {b \in S : dep[b] \cap S # {}}
\* the blocks in a loop or that depend on one
Looped(d) == LET dep == Deps(d) IN FoldLeft(LAMBDA S, k : IF S = {} THEN S ELSE Peel(dep, S), Instant(d), Idx(Len(d.b)))
HasLoop(d) == Looped(d) # {}
(***************************************************************************)
(* Meaning: every signal is a linear form of the states and of the inputs. *)
(* The state of a delay of length n is the sequence of its last n inputs.  *)
(***************************************************************************)
Delays(d) == SetToSortSeq(Of(d, "delay"), <)
NState(d) == FoldLeft(LAMBDA a, b : a + d.b[b].n, 0, Delays(d))
First(d, b) == 1 + FoldLeft(LAMBDA a, c : IF c < b THEN a + d.b[c].n ELSE a, 0, Delays(d))
Ins(d) == ByPort(d, Top(d, "in"))
Outs(d) == ByPort(d, Top(d, "out"))
Unit(m, i) == [j \in 1..m |-> IF j = i THEN 1 ELSE 0]
Comb(m, eqb, F) == [j \in 1..m |-> FoldLeft(LAMBDA a, s : IF eqb[s] = 0 THEN a ELSE (a + eqb[s] * F[s][j]) % P, 0, Idx(Len(eqb)))]
\* the linear forms, given the equations
Forms(d, eq) ==
  LET n == NState(d) ins == Ins(d) m == n + Len(ins) nb == Len(d.b)
      start == [b \in 1..nb |-> IF d.b[b].k = "delay" THEN Unit(m, First(d, b) + d.b[b].n - 1)
                                ELSE IF b \in Top(d, "in") THEN Unit(m, n + (CHOOSE i \in 1..Len(ins) : ins[i] = b)) ELSE [j \in 1..m |-> 0]]
      inst == Instant(d) \ Top(d, "in")
      step(F) == TLCEval([b \in 1..nb |-> IF b \in inst THEN TLCEval(Comb(m, eq[b], F)) ELSE F[b]]) IN
  FoldLeft(LAMBDA s, k : IF s.done THEN s ELSE LET F == step(s.F) IN [F |-> F, done |-> F = s.F], [F |-> TLCEval(start), done |-> FALSE], Idx(nb + 1)).F
EqSS(d, eq) ==
  LET F == Forms(d, eq) n == NState(d) ins == Ins(d) outs == Outs(d) q == Len(ins) p == Len(outs) m == n + q
      isFirst(i) == \E b \in Of(d, "delay") : First(d, b) = i
      who(i) == CHOOSE b \in Of(d, "delay") : First(d, b) = i
      nxt == [i \in 1..n |-> IF isFirst(i) THEN TLCEval(Comb(m, eq[who(i)], F)) ELSE Unit(m, i - 1)]
      o == [i \in 1..p |-> F[outs[i]]] IN
  SS(Mk(n, n, LAMBDA i, j : nxt[i][j]), Mk(n, q, LAMBDA i, j : nxt[i][n + j]), Mk(p, n, LAMBDA i, j : o[i][j]), Mk(p, q, LAMBDA i, j : o[i][n + j]))
Meaning(d) == EqSS(d, Equations(d))

(***************************************************************************)
(* The import.                                                             *)
(***************************************************************************)
\* subsystem s is opened: its box disappears, its ports are shortcut
Redirect(d, s) ==
  TLCEval([d EXCEPT !.w = [i \in 1..Len(@) |-> LET w == @[i] IN
     LET w1 == IF w[3] = s THEN <<w[1], w[2], Inside(d, s, "in", w[4]), 1>> ELSE w IN
     IF w1[1] = s THEN <<Inside(d, s, "out", w1[2]), 1, w1[3], w1[4]>> ELSE w1]])
Bypass(d, b) ==
  LET f == Feeds(d, b, 1) IN
  TLCEval([b |-> [d.b EXCEPT ![b].k = "gone"],
   w |-> LET kept == SelectSeq(d.w, LAMBDA w : w[3] # b /\ (f # << >> \/ w[1] # b)) IN
         [i \in 1..Len(kept) |-> IF kept[i][1] = b THEN <<f[1], f[2], kept[i][3], kept[i][4]>> ELSE kept[i]]])
Open(d, s) ==
  LET ports == {b \in Of(d, "in") \cup Of(d, "out") : d.b[b].par = s}
      d1 == Redirect(d, s)
      d2 == FoldLeft(LAMBDA x, b : Bypass(x, b), d1, SetToSortSeq(ports, <)) IN
  TLCEval([d2 EXCEPT !.b = [b \in 1..Len(@) |-> IF b = s THEN [@[b] EXCEPT !.k = "gone"] ELSE IF @[b].par = s THEN [@[b] EXCEPT !.par = d.b[s].par] ELSE @[b]]])
\* equation e uses the equation of s instead of s
Inline(eq, e, s) == [eq EXCEPT ![e] = [k \in DOMAIN @ |-> LET rest == IF k = s THEN 0 ELSE @[k] IN (rest + @[s] * eq[s][k]) % P]]
Users(d, eq, s) == {e \in 1..Len(d.b) : d.b[e].k # "gone" /\ eq[e][s] # 0}
\* the SIF: t the sums that remain (in an order of evaluation), x the delays, y the outports
Order0(d, eq, T) == \* a topological order of T
  LET RECURSIVE go(_, _)
      go(S, acc) == IF S = {} THEN acc ELSE LET c == {b \in S : \A s \in S : eq[b][s] = 0} IN
                    IF c = {} THEN acc ELSE LET b == CHOOSE b \in c : \A x \in c : b <= x IN go(S \ {b}, Append(acc, b))
  IN go(T, << >>)
RecZ(J, K, L, M, N, PP, Q, R, S) == [J |-> J, K |-> K, L |-> L, M |-> M, N |-> N, PP |-> PP, Q |-> Q, R |-> R, S |-> S]
ToSIF(d, eq, T) ==
  LET t == Order0(d, eq, T) x == Delays(d) u == Ins(d) y == Outs(d) l == Len(t) n == Len(x) p == Len(y) q == Len(u)
      sel(rows, cols) == Mk(Len(rows), Len(cols), LAMBDA i, j : eq[rows[i]][cols[j]]) IN
  RecZ(Mk(l, l, LAMBDA i, j : IF i = j THEN 1 ELSE Neg1(eq[t[i]][t[j]])), sel(x, t), sel(y, t), sel(t, x), sel(t, u), sel(x, x), sel(x, u), sel(y, x), sel(y, u))
=============================================================================
