-------------------------------- MODULE RngTrace --------------------------------
(***************************************************************************)
(* Trace validation of the random generators: what is generated is, for a  *)
(* seed, a function of the parameters and the seed (memo), and is what was *)
(* asked for.  An event carries the items generated, each with its key     *)
(* (generator, parameters, seed), its fingerprint and its sizes.           *)
(***************************************************************************)
EXTENDS TraceLib, Rng, Ana
VARIABLES l, memo, its
Ev == Trace[l]
Knows(k) == \E m \in memo : m.key = k
FpOf(k) == (CHOOSE m \in memo : m.key = k).fp
Num(x) == x.s \in {-1, 0, 1}
\* lo/den <= x <= hi/den, with a rounding error, plus slack/den
Within(x, lo, hi, den, slack) ==
  LET e == DOf(1, -30) y == DMul(x, DOf(den, 0)) IN
  Num(x) /\ DCmp(DAdd(y, DAdd(e, slack)), DOf(lo, 0)) >= 0 /\ DCmp(y, DAdd(DOf(hi, 0), DAdd(e, slack))) <= 0
\* the gain of num/den at z = 1 and z = -1 (the sums are given by the rows of coefficients)
SumAt(row, sg) == FoldLeft(LAMBDA a, k : DAdd(a, IF sg = -1 /\ k % 2 = 0 THEN DNeg(row[k]) ELSE row[k]), DZero, [k \in 1..Len(row) |-> k])
Pass(x, sg) == DCmp(DMul(DOf(2, 0), DAbs(SumAt(x.num, sg))), DAbs(SumAt(x.den, sg))) >= 0
Stop(x, sg) == DCmp(DMul(DOf(4, 0), DAbs(SumAt(x.num, sg))), DAbs(SumAt(x.den, sg))) <= 0
Shape(x) == CASE x.form = "lowpass" -> Pass(x, 1) /\ Stop(x, -1) [] x.form = "highpass" -> Stop(x, 1) /\ Pass(x, -1)
              [] x.form = "bandpass" -> Stop(x, 1) /\ Stop(x, -1) [] x.form = "bandstop" -> Pass(x, 1) /\ Pass(x, -1) [] OTHER -> FALSE
BandForms == {"bandpass", "bandstop"}
FreqOK(a, x, slack) == IF x.form \in BandForms THEN Len(x.W) = 2 /\ Num(x.W[1]) /\ Num(x.W[2]) /\ DCmp(x.W[1], x.W[2]) < 0 /\ Within(x.W[1], a.W1[1], a.W1[2], 100, slack) /\ Within(x.W[2], a.W2[1], a.W2[2], 100, slack)
                       ELSE Len(x.W) = 1 /\ Within(x.W[1], a.Wc[1], a.Wc[2], 100, slack)
HasEven(r) == \E k \in r[1]..(r[2] - 1) : k % 2 = 0
Slack(q) == IF q = 0 THEN DZero ELSE DOf(1, 0)
\* a stable matrix has |tr(A^k)| < n
Contracts(A) == LET A2 == BMul(A, A) A4 == BMul(A2, A2) IN \A M \in {A, A2, A4} : DCmp(DAbs(BTrace(M)), DAdd(DOf(A.r, 0), DOf(1, -20))) < 0
Stable(x) == x.stable = 1 /\ (x.A.r = 0 \/ Contracts(x.A))
\* what an item should be
ItemFails(fn, a, x) ==
  CASE fn = "filter1" -> Unless(<<x.n, x.p, x.q>> = <<a.n, a.p, a.q>>, "size") \cup Unless(Stable(x), "not stable")
    [] fn = "filter" -> Unless(In(x.n, a.n) /\ OfTypes(a.type, a.p, a.q, x.p, x.q), "size") \cup Unless(Stable(x), "not stable")
    [] fn \in {"ss", "ssmp"} -> Unless(In(x.n, a.n) /\ In(x.p, IF a.one = 1 /\ fn = "ss" THEN One ELSE a.p) /\ In(x.q, IF a.one = 1 /\ fn = "ss" THEN One ELSE a.q), "size")
                                \cup (IF a.stable = 1 /\ a.mask = 100 THEN Unless(x.zeros = 0, "masked") ELSE {})
    [] fn \in {"tf", "tfmp"} -> Unless(In(x.n, a.order) \/ (a.order[1] = a.order[2] /\ x.n = a.order[1]), "order")
    [] fn = "gab" -> Unless(x.type \in {"lowpass", "highpass", "bandpass", "bandstop"} /\ (a.form = "" \/ x.type = a.form), "type")
    [] OTHER -> Unless(In(x.m, a.n) /\ x.n = (IF x.form \in BandForms THEN 2 * x.m ELSE x.m), "order")
                \cup Unless(IF a.form = "" THEN x.form \in {"lowpass", "highpass"} \cup BandForms ELSE x.form = a.form, "type")
                \cup Unless(x.stable = 1, "not stable")
                \cup (IF x.m <= 4 THEN Unless(Shape(x), "gain") ELSE {})
                \cup (IF fn = "butter" THEN Unless(FreqOK(a, x, DZero), "frequency") \cup Unless(a.even = 0 \/ x.m % 2 = 0, "odd")
                      ELSE Unless(FreqOK(a, x, Slack(a.quant)), "frequency") \cup Unless(Within(x.rp, a.rp[1], a.rp[2], 1, Slack(a.quant)) /\ Within(x.rs, a.rs[1], a.rs[2], 1, Slack(a.quant)), "ripple"))
\* an item and its seed: it is the one of this seed, and carries it
Seeded(x) == x.seed # << >>
SeedFails(x) == Unless(Knows(x.key) => FpOf(x.key) = x.fp, "not the same")
\* what may be refused
NoSuch(fn, a) == fn = "butter" /\ a.even = 1 /\ ~HasEven(a.n)       \* nothing corresponds: unspecified
Forgiven(fn, a) == NoSuch(fn, a) \/ (fn = "gab" /\ ~(a.form \in {"", "lowpass"}) /\ Ev.what = "ValueError")
GenFails ==
  LET o == Ev.o IN
  IF Ev.got = "raise" THEN (IF Forgiven(o.fn, o.args) THEN {} ELSE {"raise"})
  ELSE IF NoSuch(o.fn, o.args) THEN {}
  ELSE LET x == Ev.x IN
       ItemFails(IF o.fn = "filter" THEN "filter1" ELSE o.fn, o.args, x)
       \cup (IF o.seed = << >> THEN {} ELSE Unless(x.seed = o.seed, "seed not in the name") \cup SeedFails(x))
DefFails == IF Ev.got = "raise" THEN {"raise"}
            ELSE (IF Ev.o.seed = << >> THEN {} ELSE Unless(Ev.x.seed = Ev.o.seed, "seed not in the name") \cup SeedFails(Ev.x))
AgainFails == IF Ev.got = "raise" THEN {"raise"} ELSE Unless(Ev.x.fp = Ev.first.fp, "not the same from its name") \cup Unless(Ev.x.seed = Ev.first.seed, "seed not in the name")
\* iterators
PullFails ==
  LET i == Ev.o.i it == its[i] a == it.o.args fn == it.o.fn have == it.items \o Ev.items IN
  IF Ev.got = "raise" THEN (IF Forgiven(fn, a) THEN {} ELSE {"raise"})
  ELSE IF NoSuch(fn, a) \/ it.dead THEN {}
  ELSE UNION {ItemFails(fn, a, Ev.items[k]) : k \in 1..Len(Ev.items)}
       \cup (IF fn \in {"filter", "butter", "ellip"} /\ it.o.seeded # 0
             THEN UNION {Unless(Seeded(Ev.items[k]), "seed not in the name") \cup SeedFails(Ev.items[k]) : k \in 1..Len(Ev.items)}
             ELSE IF fn = "gab" THEN UNION {Unless(Seeded(Ev.items[k]), "seed not in the name") : k \in 1..Len(Ev.items)} ELSE {})
       \cup Unless(Len(have) <= it.o.number, "too many")
       \cup (IF Ev.done THEN Unless(Len(have) = it.o.number, "number") ELSE {})
       \cup (IF fn = "gab" \/ (fn = "ellip" /\ a.quant # 0) THEN {}
             ELSE LET some == IF fn \in {"filter", "butter", "ellip"} /\ it.o.seeded # 0 THEN have ELSE Ev.items IN   \* (the stream may be seeded between two pulls)
                  Unless(\A x, y \in 1..Len(some) : some[x].fp = some[y].fp => x = y, "several times the same"))
       \cup (IF Ev.done /\ it.o.number >= 24 THEN
               (IF fn = "filter" THEN (IF a.type = "all" /\ a.p[1] > 1 /\ a.q[1] > 1 THEN Unless(Cardinality({<<have[k].p > 1, have[k].q > 1>> : k \in 1..Len(have)}) > 1, "always the same type") ELSE {})
                ELSE IF a.form = "" THEN Unless(Cardinality({have[k].form : k \in 1..Len(have)}) > 1, "always the same type") ELSE {}) ELSE {})
Fails == CASE Ev.ev = "begin" -> {}
           [] Ev.ev = "gen" -> GenFails
           [] Ev.ev = "default" -> DefFails
           [] Ev.ev = "again" -> AgainFails
           [] Ev.ev = "pull" -> PullFails
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
Learn(xs) == memo \cup {[key |-> xs[k].key, fp |-> xs[k].fp] : k \in {k \in 1..Len(xs) : Seeded(xs[k]) /\ ~Knows(xs[k].key)}}
Step == CASE Ev.ev = "begin" -> memo' = {} /\ its' = << >>
          [] Ev.ev \in {"gen", "default", "again"} -> its' = its /\ memo' = (IF Ev.got = "raise" THEN memo ELSE Learn(<<Ev.x>>))
          [] Ev.ev = "start" -> its' = Append(its, [o |-> Ev.o, items |-> << >>, dead |-> FALSE]) /\ memo' = memo
          [] Ev.ev = "pull" -> (IF Ev.got = "raise" THEN its' = [its EXCEPT ![Ev.o.i].dead = TRUE] /\ memo' = memo
                                ELSE its' = [its EXCEPT ![Ev.o.i].items = @ \o Ev.items] /\ memo' = Learn(Ev.items))
          [] OTHER -> UNCHANGED <<memo, its>>
TraceInit == l = 1 /\ memo = {} /\ its = << >>
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, memo, its>>
=============================================================================
