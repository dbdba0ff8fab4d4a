------------------------------ MODULE TextTrace ------------------------------
(* names, sums of products and algorithms printed by the code, judged by Names and Algo *)
EXTENDS Algo, TraceLib
VARIABLE l
Ev == Trace[l]
Pow2(k) == IF k >= 0 THEN PowMod(2, k) ELSE Inv(PowMod(2, -k))
Val(c) == Mul(c[1] % P, Pow2(c[2]))
\* sums of products: the non-zero terms in order
Wanted(e) == SelectSeq([i \in 1..Len(e.vs) |-> [c |-> Val(e.cs[i]), v |-> e.vs[i], nz |-> e.cs[i][1] # 0]], LAMBDA t : t.nz)
Selfish(e, w) == Len(w) = 1 /\ w[1].v = e.res /\ w[1].c = 1
SopFails(e) == LET w == TLCEval(Wanted(e)) IN
  IF Selfish(e, w) THEN Unless(e.empty, "assignment to itself")
  ELSE IF e.empty THEN {"empty text"}
  ELSE Unless(e.gotres = e.res, "result") \cup Unless(e.gotassign, "assignment symbol")
       \cup Unless(e.zero = (w = << >>), "zero")
       \cup Unless(Len(e.terms) = Len(w) /\ \A i \in 1..Len(w) : e.terms[i].v = w[i].v, "variables")
       \cup Unless(Len(e.terms) = Len(w) /\ \A i \in 1..Len(w) : e.terms[i].c = w[i].c, "coefficients")

(***************************************************************************)
(* algorithms                                                              *)
(***************************************************************************)
\* surnames the structures document
SurOf(e, z) ==
  LET n == n_(z) \div 2 None == [t |-> << >>, x |-> << >>] IN
  CASE e.st = "DFI" -> [t |-> << >>, x |-> [i \in 1..n_(z) |-> IF i <= n THEN [s |-> "y", i |-> -1, sh |-> -(n + 1 - i)] ELSE [s |-> "u", i |-> -1, sh |-> -(2 * n + 1 - i)]]]
    [] e.st = "DFII" -> [t |-> <<[s |-> "v", i |-> -1, sh |-> -1]>>, x |-> [i \in 1..n_(z) |-> [s |-> "v", i |-> -1, sh |-> -(n_(z) + 1 - i)]]]
    [] e.st = "" -> e.sur
    [] OTHER -> None
Renamed(vs) == \E i \in 1..Len(vs) : HasSur(vs[i]) /\ vs[i].sur # vs[i].nm
Shifted(vs) == \E i \in 1..Len(vs) : HasSur(vs[i]) /\ vs[i].sur # vs[i].nm /\ vs[i].sh # 0
Decl(kw, name, static, n) == IF n = 0 THEN {} ELSE {<<kw, name, static, n>>}
Declared(z, time) == Decl("In", "u", FALSE, q_(z)) \cup Decl("Out", "y", FALSE, p_(z)) \cup Decl("Data", "x", TRUE, n_(z))
               \cup Decl("Data", "t", FALSE, l_(z)) \cup (IF ~time /\ Pnut(z) THEN Decl("Data", "xp", FALSE, n_(z)) ELSE {})
AlgoFails(e) ==
  LET z == TLCEval(e.z)
      nm == NamesOf(z, SurOf(e, z))
      U == Mk(q_(z), e.u.c, LAMBDA i, j : e.u.e[i][j] % P)
      ref == SimOut(z, U)
      bad == ~e.time /\ e.ws /\ (Shifted(nm.t) \/ Shifted(nm.x))
      renamed == e.ws /\ (Renamed(nm.t) \/ Renamed(nm.x))
      run == IF e.time THEN TimedRun(z, nm, e.ws, e.txt, U) ELSE StaticRun(z, nm, e.ws, e.txt, U, FALSE)
  IN IF bad THEN Unless(e.err = "ValueError", "incoherent options accepted") \cup Unless(e.texerr = "ValueError", "incoherent options accepted by LaTeX")
     ELSE IF e.err # "" THEN {"algorithmTxt raises"}
     ELSE (IF run = ref THEN {}
           ELSE IF ~e.time /\ ~Pnut(z) /\ StaticRun(z, nm, e.ws, e.txt, U, TRUE) = ref THEN {"outputs read the updated states"}
           ELSE {"outputs"})
          \cup Unless(\A i \in 1..Len(e.txt) : \A j \in 1..Len(e.txt[i].terms) : e.txt[i].terms[j].c # 0, "zero term")
          \cup (IF e.texerr # "" THEN {"algorithmLaTeX raises"}
                ELSE Unless(e.tex = e.txt, "LaTeX lines")
                     \cup (IF ToSet(e.decl) = Declared(z, e.time) /\ Len(e.decl) = Cardinality(Declared(z, e.time))
                           THEN (IF renamed THEN {"declares the SIF names"} ELSE {}) ELSE {"declarations"})
                     \cup Unless(e.swap = (IF ~e.time /\ Pnut(z) THEN <<"x", "xp">> ELSE << >>), "swap"))

Fails ==
  CASE Ev.ev = "begin" -> {}
    [] Ev.ev = "name" -> Unless(Ev.got \in Printed(Ev.v, Ev.o), "name")
    [] Ev.ev = "list" -> LET vs == NameList(Ev.base, Ev.n, Ev.surs) IN
         IF Len(Ev.surs) # 0 /\ Len(Ev.surs) # Ev.n THEN Unless(Ev.err = "ValueError", "wrong number of surnames accepted")
         ELSE IF Ev.err # "" THEN {"generateNames raises"}
         ELSE Unless(Len(Ev.got) = Ev.n /\ \A k \in 1..Ev.n : Ev.got[k] \in Printed(vs[k], Ev.o), "list of names")
    [] Ev.ev = "sop" -> IF Ev.extra # 0 THEN Unless(Ev.err = "ValueError", "lists of different lengths accepted")
                        ELSE IF Ev.err # "" THEN {"raises"} ELSE SopFails(Ev)
    [] Ev.ev = "algo" -> AlgoFails(Ev)
    [] Ev.ev \in Broken -> {Ev.ev}
    [] OTHER -> {}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
