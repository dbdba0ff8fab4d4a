------------------------------- MODULE MPTrace -------------------------------
(***************************************************************************)
(* Trace validation of fixif.func_aux: every recorded call drives the heap *)
(* of MPArith.                                                             *)
(*   obs |-> the value returned; objs |-> fingerprints of the live         *)
(*   objects; prec |-> <<working precision before, after>> the call.       *)
(***************************************************************************)
EXTENDS MPArith, Tok, TraceLib
CONSTANT Clauses
VARIABLES l, heap, mem, toks
Ev == Trace[l]
OpOf(e) == IF e.o.op = "prod" THEN [op |-> "prod", i |-> e.o.i, j |-> e.o.j, s |-> TSeq(e.o.s), skip |-> e.o.skip] ELSE e.o
Special(o) == IF o.op \in {"new", "prod"} THEN "" ELSE IF heap[o.i].sp # "" THEN heap[o.i].sp ELSE heap[o.j].sp
Arith == {"add", "sub", "mul", "inv", "padd", "psub", "pmul"}
\* which entries of the object must survive a conversion to double
Sure(o) == [i \in 1..heap[o.i].m.r |-> [j \in 1..heap[o.i].m.c |->
             IF toks[o.i] = << >> THEN FALSE ELSE SpanFits(toks[o.i][1].e[i][j], 10, 53, -1074, 1023)]]
MatOK(b) == IsMat(b)
ValFails(o) ==
  LET b == Ev.obs w == Value(heap, o) IN
  CASE o.op = "repr" -> Unless(b.Y.r = w.r /\ b.Y.c = w.c /\ b.N.r = w.r /\ b.N.c = w.c, "sizes")
                        \cup (IF b.Y.r = w.r /\ b.Y.c = w.c /\ IsMat(b.Y)
                              THEN Unless(\A i \in 1..w.r : \A j \in 1..w.c : Mul(b.Y.e[i][j], TPow2(b.N.e[i][j])) = w.e[i][j], "value") ELSE {"value"})
    [] o.op = "entry" -> LET x == w.e[o.r][o.c] IN
                         Unless(Mul(b.y, TPow2(b.n)) = x, "value")
                         \cup Unless(b.item = x, "value")
                         \cup (IF toks[o.i] # << >> /\ SpanFits(toks[o.i][1].e[o.r][o.c], 10, 53, -1074, 1023) THEN Unless(b.d = x, "value") ELSE {})
    [] o.op = "equal" -> Unless((b.eq = 1) = (heap[o.i].m = heap[o.j].m), "value")
    [] o.op = "tonp" -> Unless(b.f = "np", "format")
                        \cup (IF b.m.r # w.r \/ b.m.c # w.c THEN {"sizes"}
                              ELSE LET S == Sure(o) IN Unless(\A i \in 1..w.r : \A j \in 1..w.c : ~S[i][j] \/ b.m.e[i][j] = w.e[i][j], "value"))
    [] o.op = "poke" -> {}
    [] OTHER -> Unless(b.f = Fmt(heap, o), "format")
                \cup (IF b.m.r # w.r \/ b.m.c # w.c THEN {"sizes"} ELSE Unless(IsMat(b.m) /\ b.m = w, "value"))
OpFails ==
  LET o == OpOf(Ev) sp == Special(o) IN
  (CASE o.op = "new" -> (IF Ev.got = "raise" THEN {"refused"}
                         ELSE Unless(Ev.obs.f = o.f, "format")
                              \cup (IF Ev.obs.m.r # o.M.r \/ Ev.obs.m.c # o.M.c THEN {"sizes"} ELSE IF o.sp # "" THEN {} ELSE Unless(Ev.obs.m = TMat(o.M), "value")))
     [] sp = "cplx" /\ o.op \in {"add", "sub", "mul"} /\ heap[o.i].f # "MPF" -> Unless(Ev.got = "raise", "accepted")
     [] sp # "" /\ o.op = "repr" -> Unless(Ev.got = "raise", "accepted")
     [] sp # "" /\ o.op \in Arith \cup {"equal"} -> (IF Legal(heap, o) \/ o.op = "inv" THEN {} ELSE Unless(Ev.got = "raise", "accepted"))
     [] o.op = "pbad" -> Unless(Ev.got = "raise", "accepted")
     [] sp # "" -> {}
     [] ~Legal(heap, o) -> Unless(Ev.got = "raise", "accepted")
     [] Ev.got = "raise" -> {"refused"}
     [] OTHER -> ValFails(o))
  \cup Unless(\A i \in 1..Len(mem) : Ev.objs[i] = mem[i] \/ (o.op = "poke" /\ i = o.i), "operand modified")
  \cup Unless(Ev.prec[1] = Ev.prec[2], "precision changed")
Fails == CASE Ev.ev = "begin" -> {}
           [] Ev.ev = "op" -> OpFails
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
\* does the result of this call stay in the heap?
Keeps(o) == Ev.kept = 1
NewObj(o) == IF o.op = "new" THEN Obj(o.f, o.sp, TMat(o.M))
             ELSE Obj(Fmt(heap, o), "", Value(heap, o))
Step == CASE Ev.ev = "begin" -> heap' = << >> /\ mem' = << >> /\ toks' = << >>
          [] Ev.ev = "op" ->
               LET o == OpOf(Ev) IN
               /\ mem' = Ev.objs
               /\ IF o.op = "poke" THEN heap' = [heap EXCEPT ![o.i].m.e[o.r][o.c] = o.x % P] /\ toks' = [toks EXCEPT ![o.i] = << >>]
                  ELSE IF Ev.kept = 1 THEN heap' = Append(heap, NewObj(o)) /\ toks' = Append(toks, IF o.op = "new" THEN <<o.M>> ELSE IF o.op \in {"tomp", "wrap"} THEN toks[o.i] ELSE << >>)
                  ELSE UNCHANGED <<heap, toks>>
          [] OTHER -> UNCHANGED <<heap, mem, toks>>
TraceInit == l = 1 /\ heap = << >> /\ mem = << >> /\ toks = << >>
TraceNext == /\ l <= Len(Trace)
             /\ Verdict(l, Fails \cap Clauses) = TRUE
             /\ Step /\ l' = l + 1
All == {"format", "sizes", "value", "refused", "accepted", "operand modified"} \cup Broken
Precision == {"precision changed"}
TraceSpec == TraceInit /\ [][TraceNext]_<<l, heap, mem, toks>>
=============================================================================
