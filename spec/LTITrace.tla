------------------------------ MODULE LTITrace ------------------------------
(***************************************************************************)
(* Trace validation of the LTI classes: every recorded call drives the     *)
(* heap of LTI; the object the code returned must mean what the            *)
(* specification says, and nothing else may have changed.                  *)
(*  obs |-> the new object; objs, args |-> fingerprints of every live      *)
(*  object and of every matrix given by the caller.                        *)
(***************************************************************************)
EXTENDS LTI, Tok, TraceLib
CONSTANT Clauses           \* the clauses this check decides
VARIABLES l, heap, mem
Ev == Trace[l]
\* the operation of an event, with its numbers in GF(P)
OpOf(e) ==
  LET o == e.o IN
  CASE o.op = "newss" -> [op |-> "newss", mp |-> o.mp, v |-> SS(TMat(o.A), TMat(o.B), TMat(o.C), TMat(o.D))]
    [] o.op = "newtf" -> [op |-> "newtf", mp |-> o.mp, v |-> TF(TSeq(o.num), TSeq(o.den))]
    [] o.op \in Scal -> [op |-> o.op, i |-> o.i, x |-> o.x % P]
    [] o.op = "simil" -> [op |-> "simil", i |-> o.i, T |-> Mk(o.T.r, o.T.c, LAMBDA x, y : o.T.e[x][y] % P)]
    [] OTHER -> o
Acc(o) == o.op # "badop" /\ (o.op = "conv" => o.to # "badform") /\ Legal(heap, o)

ObsSS(b) == SS(b.A, b.B, b.C, b.D)
IsNum(s) == \A k \in 1..Len(s) : s[k] \in 0..(P - 1)
ObsFails(b, x) ==
  IF b.k # x.k THEN {"kind"}
  ELSE IF b.mp # x.mp THEN {"precision"}
  ELSE IF b.k = "ss"
  THEN LET S == ObsSS(b) IN
       IF ~(IsMat(b.A) /\ IsMat(b.B) /\ IsMat(b.C) /\ IsMat(b.D)) THEN {"not numbers"}
       ELSE IF ~IsSS(S) THEN {"sizes"}
       ELSE Unless(b.size = <<Order(S), NOut(S), NIn(S)>>, "sizes") \cup Unless(Equiv(S, x.s), "behaviour")
  ELSE IF ~(IsNum(b.num) /\ IsNum(b.den)) THEN {"not numbers"}
       ELSE LET H == TF(b.num, b.den) IN
            IF ~IsTF(H) THEN {"denominator"}
            ELSE Unless(b.den[1] = 1, "not normalised") \cup Unless(b.order = TFDeg(H) /\ Len(b.num) = Len(b.den), "order") \cup Unless(TFEq(H, x.h), "behaviour")
NullOK(b) == Null(ObsSS(b)) = {}
Changed(i) == Ev.objs[i] # mem.objs[i]
OpFails ==
  LET o == OpOf(Ev) IN
  (IF Ev.got = "raise" THEN Unless(~Acc(o), "refused")
   ELSE IF ~Acc(o) THEN {"accepted"}
   ELSE ObsFails(Ev.obs, Result(heap, o))
        \cup (IF o.op = "simplify" /\ Ev.obs.k = "ss" /\ IsSS(ObsSS(Ev.obs)) THEN Unless(NullOK(Ev.obs), "not simplified") ELSE {})
        \cup (IF o.op = "simil" THEN LET S == Result(heap, o).s IN Unless(MEq(Ev.obs.A, S.A) /\ MEq(Ev.obs.B, S.B) /\ MEq(Ev.obs.C, S.C) /\ MEq(Ev.obs.D, S.D), "transform") ELSE {}))
  \cup Unless(\A i \in 1..Len(mem.objs) : ~Changed(i) \/ (InPlace(o) /\ i = o.i), "operand modified")
  \cup Unless(\A i \in 1..Len(mem.args) : Ev.args[i] = mem.args[i], "caller's matrix modified")
Fails == CASE Ev.ev = "begin" -> {}
           [] Ev.ev = "op" -> OpFails
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
Step == CASE Ev.ev = "begin" -> heap' = << >> /\ mem' = [objs |-> << >>, args |-> << >>]
          [] Ev.ev = "op" ->
               /\ mem' = [objs |-> Ev.objs, args |-> Ev.args]
               /\ LET o == OpOf(Ev) IN
                  heap' = IF Ev.got = "raise" \/ ~Acc(o) THEN heap
                          ELSE IF InPlace(o) THEN [heap EXCEPT ![o.i] = Result(heap, o)] ELSE Append(heap, Result(heap, o))
          [] OTHER -> UNCHANGED <<heap, mem>>
TraceInit == l = 1 /\ heap = << >> /\ mem = [objs |-> << >>, args |-> << >>]
TraceNext == /\ l <= Len(Trace)
             /\ Verdict(l, Fails \cap Clauses) = TRUE
             /\ Step /\ l' = l + 1
All == {"kind", "precision", "not numbers", "sizes", "behaviour", "denominator", "not normalised", "order", "refused", "accepted", "not simplified", "transform",
        "operand modified", "caller's matrix modified"} \cup Broken
TraceSpec == TraceInit /\ [][TraceNext]_<<l, heap, mem>>
=============================================================================
