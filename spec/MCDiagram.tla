------------------------------ MODULE MCDiagram ------------------------------
(***************************************************************************)
(* The import of every small diagram (one input, one output, a gain, a     *)
(* delay, one or two sums with any signs, one subsystem that holds a gain, *)
(* or a delay, any wires, any coefficients), step by step in any order:    *)
(* each step keeps the behaviour, and so does the realization at the end.  *)
(***************************************************************************)
EXTENDS Diagram
CONSTANTS TwoSums, Part
VARIABLES d, eq, ph, live, ref
vars == <<d, eq, ph, live, ref>>
Signs == {<<1, 1>>, <<1, P - 1>>}
\* 1 in, 2 out, 3 gain, 4 delay, 5 sum, 6 sub, 7 its in, 8 its out, 9 its gain or delay, 10 a second sum
Blocks(sg, k) == <<Blk("in", 0, 1, 0, << >>, 0), Blk("out", 0, 1, 0, << >>, 0), Blk("gain", 0, 0, 2, << >>, 0), Blk("delay", 0, 0, 0, << >>, 1), Blk("sum", 0, 0, 0, sg, 0),
                Blk("sub", 0, 0, 0, << >>, 0), Blk("in", 6, 1, 0, << >>, 0), Blk("out", 6, 1, 0, << >>, 0), Blk(k, 6, 0, 2, << >>, 1)>>
TopSrc == {1, 3, 4, 5, 6} \cup (IF TwoSums THEN {10} ELSE {})
Keep(o) == TRUE
Diag(w, sg, k, i9) ==
  [b |-> Blocks(sg, k) \o (IF TwoSums THEN <<Blk("sum", 0, 0, 0, <<1, P - 1>>, 0)>> ELSE << >>),
   w |-> <<<<w[1], 1, 2, 1>>, <<w[2], 1, 3, 1>>, <<w[3], 1, 4, 1>>, <<w[4], 1, 5, 1>>, <<w[5], 1, 5, 2>>, <<w[6], 1, 6, 1>>, <<w[7], 1, 8, 1>>, <<i9, 1, 9, 1>>>>
         \o (IF TwoSums THEN <<<<w[6], 1, 10, 1>>, <<5, 1, 10, 2>>>> ELSE << >>)]
Chosen(w) == (w[1] + 2 * w[2] + 3 * w[3] + 5 * w[4] + 7 * w[5] + 11 * w[6] + w[7]) % Part = 0
Init ==
  \E a, b, c, e, f, g \in TopSrc, h \in {7, 9} : LET w == <<a, b, c, e, f, g, h>> IN Chosen(w) /\ \E sg \in Signs : \E k \in {"gain", "delay"} : \E i9 \in {7, 9} :
    /\ d = Diag(w, sg, k, i9)
    /\ eq = << >> /\ ph = "new" /\ live = {} /\ ref = << >>
Start == ph = "new" /\ ~HasLoop(d) /\ ph' = "open" /\ ref' = Meaning(d) /\ UNCHANGED <<d, eq, live>>
OpenSub == ph = "open" /\ Of(d, "sub") # {} /\ \E s \in Of(d, "sub") : d' = Open(d, s) /\ UNCHANGED <<eq, ph, live, ref>>
Eqs(dd) == Equations(dd)
Build == ph = "open" /\ Of(d, "sub") = {} /\ eq' = Eqs(d) /\ ph' = "merge" /\ live' = {b \in 1..Len(d.b) : d.b[b].k # "gone"} /\ UNCHANGED <<d, ref>>
Sole(e, s) == Users(d, eq, s) \cap live = {e}
Wires2(s) == Cardinality({i \in 1..Len(d.w) : d.w[i][1] = s})
\* a sum used by one sum or outport only is merged into it
Merge == ph = "merge" /\ \E e \in live : \E s \in live :
  /\ d.b[s].k = "sum" /\ d.b[e].k \in {"sum", "out"} /\ e # s /\ Sole(e, s)
  /\ eq' = Inline(eq, e, s) /\ live' = live \ {s} /\ UNCHANGED <<d, ph, ref>>
EndMerge == ph = "merge" /\ ph' = "gain" /\ UNCHANGED <<d, eq, live, ref>>
Expand == ph = "gain" /\ \E e \in live : \E s \in live :
  /\ d.b[s].k = "gain" /\ eq[e][s] # 0
  /\ eq' = Inline(eq, e, s) /\ UNCHANGED <<d, ph, live, ref>>
EndExpand == ph = "gain" /\ (\A e \in live : \A s \in live : d.b[s].k = "gain" /\ d.b[e].k # "gain" => eq[e][s] = 0) /\ ph' = "sif" /\ UNCHANGED <<d, eq, live, ref>>
Next == Start \/ OpenSub \/ Build \/ Merge \/ EndMerge \/ Expand \/ EndExpand
Spec == Init /\ [][Next]_vars
T == {b \in live : d.b[b].k = "sum"}
Same(S) == Equiv(S, ref)
Behaviour ==
  CASE ph = "new" -> TRUE
    [] ph = "open" -> ~HasLoop(d) /\ Meaning(d) = ref
    [] ph \in {"merge", "gain"} -> EqSS(d, [b \in 1..Len(d.b) |-> IF b \in live THEN eq[b] ELSE Unit(Len(d.b), 0)]) = ref
    [] OTHER -> LET z == ToSIF(d, eq, T) IN DimOK(z) /\ UnitLT(z.J) /\ SysOf(z) = ref
\* wrong steps
Overwrite(nb, ts) == [s \in 1..nb |-> FoldLeft(LAMBDA a, t : IF t.s = s THEN t.c ELSE a, 0, ts)]
LoseOther(q, e, s) == [q EXCEPT ![e] = [k \in DOMAIN @ |-> IF q[s][k] # 0 THEN (@[s] * q[s][k]) % P ELSE IF k = s THEN 0 ELSE @[k]]]
NotSole(e, s) == eq[e][s] # 0
=============================================================================
