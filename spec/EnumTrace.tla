------------------------------- MODULE EnumTrace -------------------------------
(***************************************************************************)
(* Trace validation of the enumeration.  The registry is known from the    *)
(* registrations (the options of the built-in structures are read on them  *)
(* at the beginning, their acceptance rules are those of BuiltIn).         *)
(***************************************************************************)
EXTENDS TraceLib, Enum, Rng
VARIABLES l, reg, fil, its
Ev == Trace[l]
BuiltIn(s) == CASE s \in {"DFI", "DFII"} -> <<"siso", "", "">> [] s = "dSS" -> <<"form", "", "">> [] OTHER -> <<"siso stable", "", "">>
\* a choice as the function of its list of pairs
Fun(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |-> LET i == CHOOSE i \in 1..Len(ps) : ps[i][1] = n IN ps[i][2]]
Item(x) == <<x.st, Fun(x.opts)>>
Distinct(s) == \A a, b \in 1..Len(s) : s[a] = s[b] => a = b
\* an enumeration in progress: the filter and what is left (known once it has begun)
Left(i) == IF its[i].begun THEN its[i].left ELSE Enumeration(reg, fil[its[i].f])
PullFails ==
  LET i == Ev.o.i x == [k \in 1..Len(Ev.items) |-> Item(Ev.items[k])] left == Left(i) IN
  IF Ev.got = "raise" THEN {"raise"}
  ELSE Unless(\A k \in 1..Len(x) : x[k] \in left, "not in the enumeration, or twice") \cup Unless(Distinct(x), "twice")
       \cup Unless(\A k \in 1..Len(Ev.items) : Ev.items[k].filt = 1, "other filter")
       \cup Unless(\A k \in 1..Len(Ev.items) : Ev.items[k].built = 1, "built with other options")
       \cup (IF Ev.done THEN Unless({x[k] : k \in 1..Len(x)} = left, "incomplete") ELSE {})
\* the choice given (pairs) over the default values
With(st, ps) == LET g == Fun(ps) IN [n \in OptNames(st) |-> IF n \in DOMAIN g THEN g[n] ELSE Default(st)[n]]
MakeFails ==
  IF Ev.o.name \notin DOMAIN reg THEN Unless(Ev.got = "raise", "found")
  ELSE IF Ev.got = "raise" THEN (IF Accepts(reg[Ev.o.name].rule, fil[Ev.o.f], With(reg[Ev.o.name], Ev.opts)) THEN {"raise"} ELSE {})
  ELSE Unless(Ev.item.st = (IF Ev.o.named = 1 THEN "mine" ELSE Ev.o.name), "short name")
       \cup (IF Ev.o.named = 1 THEN Unless(Ev.item.full = "my name", "full name")
             ELSE Unless(Fun(Ev.item.opts) = With(reg[Ev.o.name], Ev.opts), "options"))
       \cup Unless(Ev.item.filt = 1, "other filter") \cup Unless(Ev.item.built = 1, "built with other options")
\* the enumerations of random filters, one after the other
RandFails ==
  LET G == Ev.groups IN
  IF Ev.got = "raise" THEN {"raise"}
  ELSE Unless(Len(G) = Ev.o.number, "number of filters")
       \cup UNION {LET g == G[k] x == [i \in 1..Len(g.items) |-> Item(g.items[i])] IN
                   Unless(Distinct(x), "twice") \cup Unless({x[i] : i \in 1..Len(x)} = Enumeration(reg, [n |-> g.n, p |-> g.p, q |-> g.q, stable |-> TRUE]), "incomplete")
                   \cup Unless(\A i \in 1..Len(x) : g.items[i].built = 1, "built with other options")
                   \cup Unless(In(g.n, Ev.o.n) /\ OfTypes(Ev.o.type, Ev.o.p, Ev.o.q, g.p, g.q), "size") : k \in 1..Len(G)}
Fails == CASE Ev.ev = "begin" -> {}
           [] Ev.ev = "rand" -> RandFails
           [] Ev.ev = "pull" -> PullFails
           [] Ev.ev = "get" -> (IF Ev.o.name \in DOMAIN reg THEN Unless(Ev.got = "ok" /\ Ev.same = 1, "not found")
                                ELSE Unless(Ev.got = "ValueError", "found"))
           [] Ev.ev = "accept" -> (IF Ev.o.name \notin DOMAIN reg THEN {}
                                   ELSE LET a == Accepts(reg[Ev.o.name].rule, fil[Ev.o.f], With(reg[Ev.o.name], Ev.opts)) IN
                                        Unless(Ev.got = (IF a THEN "yes" ELSE "no"), "acceptance"))
           [] Ev.ev = "make" -> MakeFails
           [] Ev.ev = "all" -> Unless({Ev.names[k] : k \in 1..Len(Ev.names)} = DOMAIN reg /\ Distinct(Ev.names), "registry")
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
Step == CASE Ev.ev = "begin" -> reg' = << >> /\ fil' = << >> /\ its' = << >>
          [] Ev.ev = "known" -> /\ reg' = [s \in {Ev.sts[k].name : k \in 1..Len(Ev.sts)} |-> LET k == CHOOSE k \in 1..Len(Ev.sts) : Ev.sts[k].name = s IN [opts |-> Ev.sts[k].opts, rule |-> BuiltIn(s)]]
                                /\ UNCHANGED <<fil, its>>
          [] Ev.ev = "reg" -> reg' = ((Ev.o.name :> [opts |-> Ev.o.opts, rule |-> Ev.o.rule]) @@ reg) /\ UNCHANGED <<fil, its>>
          [] Ev.ev = "filt" -> fil' = Append(fil, [n |-> Ev.o.n, p |-> Ev.o.p, q |-> Ev.o.q, stable |-> Ev.o.stable]) /\ UNCHANGED <<reg, its>>
          [] Ev.ev = "start" -> its' = Append(its, [f |-> Ev.o.f, begun |-> FALSE, left |-> {}]) /\ UNCHANGED <<reg, fil>>
          [] Ev.ev = "pull" -> its' = [its EXCEPT ![Ev.o.i].begun = TRUE, ![Ev.o.i].left = Left(Ev.o.i) \ {Item(Ev.items[k]) : k \in 1..Len(Ev.items)}] /\ UNCHANGED <<reg, fil>>
          [] OTHER -> UNCHANGED <<reg, fil, its>>
TraceInit == l = 1 /\ reg = << >> /\ fil = << >> /\ its = << >>
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, reg, fil, its>>
=============================================================================
