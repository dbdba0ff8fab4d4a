-------------------------------- MODULE BandsTrace --------------------------------
(***************************************************************************)
(* Trace validation of gabarits.  gab: the bands given, in the order of    *)
(* frequencies (what the gabarit should be).                               *)
(***************************************************************************)
EXTENDS TraceLib, Bands, Trig
VARIABLES l, gab
Ev == Trace[l]
Num(x) == x.s \in {-1, 0, 1}
Same(x, y) == Num(x) /\ DCmp(x, y) = 0
\* x*den = num, with a rounding error
Frac(x, num, den) == Num(x) /\ LET d == DSub(DMul(x, DOf(den, 0)), DOf(num, 0)) IN DCmp(DAbs(d), DMul(DOf(1, -45), DAdd(DOf(1, 0), DAbs(DOf(num, 0))))) <= 0
Fs(g) == IF g.Fs = 0 THEN 2 ELSE g.Fs
\* frequencies in 1/(2 fd) Hz, so that the half of Fs is one of them
F1(g, b) == 2 * b.f1
F2(g, b) == IF b.f2 = -1 THEN Fs(g) * g.fd ELSE 2 * b.f2
Q(k) == DOf(k, -2)
Lo(x) == IF x[1] <= x[2] THEN x[1] ELSE x[2]
Hi(x) == IF x[1] <= x[2] THEN x[2] ELSE x[1]
BandIs(g, b, r) ==
  Frac(r.F1, F1(g, b), 2 * g.fd) /\ Frac(r.F2, F2(g, b), 2 * g.fd) /\ Frac(r.w1, F1(g, b), Fs(g) * g.fd) /\ Frac(r.w2, F2(g, b), Fs(g) * g.fd)
GainsAre(b, lo, hi, r) == IF Len(b.g) = 2 THEN r.pass = 1 /\ Len(r.pg) = 2 /\ r.sg = << >> /\ Same(r.pg[1], Q(lo)) /\ Same(r.pg[2], Q(hi))
                          ELSE r.pass = 0 /\ r.pg = << >> /\ Len(r.sg) = 1 /\ Same(r.sg[1], Q(hi))
Is(g, b, r) == BandIs(g, b, r) /\ (IF Len(b.g) = 2 THEN GainsAre(b, Lo(b.g), Hi(b.g), r) ELSE GainsAre(b, 0, b.g[1], r))
Sorted(g) == [g EXCEPT !.bs = SortSeq(@, LAMBDA a, b : a.f1 < b.f1)]
PassesOf(g) == [i \in 1..Len(g.bs) |-> Len(g.bs[i].g) = 2]
Top(b) == IF Len(b.g) = 2 THEN Hi(b.g) ELSE b.g[1]
MakeFails ==
  LET g == Sorted(Ev.o.g) IN
  IF Ev.o.g.drop # 0 THEN Unless(Ev.got = "ValueError", "accepted")
  ELSE IF Ev.got # "ok" THEN {"refused"}
  ELSE IF Len(Ev.bands) # Len(g.bs) THEN {"number of bands"}
  ELSE Unless(\A i \in 1..Len(g.bs) : BandIs(g, g.bs[i], Ev.bands[i]), "frequencies")
       \cup Unless(\A i \in 1..Len(g.bs) : Is(g, g.bs[i], Ev.bands[i]), "gains")
       \cup Unless(Ev.type = Shape(PassesOf(g)), "type")
       \cup (IF g.bs = << >> THEN {} ELSE LET m == CHOOSE i \in 1..Len(g.bs) : \A j \in 1..Len(g.bs) : Top(g.bs[j]) <= Top(g.bs[i]) IN Unless(Same(Ev.max, Q(Top(g.bs[m]))), "maximum gain"))
Kept == Unless(\A i \in 1..Len(gab.bs) : Is(gab, gab.bs[i], Ev.bands[i]), "gabarit modified")
ShiftFails(dlo, dhi) ==
  LET b == gab.bs[Ev.i] IN
  IF Ev.got # "ok" THEN {"refused"}
  ELSE Unless(BandIs(gab, b, Ev.band), "frequencies")
       \cup Unless(IF Len(b.g) = 2 THEN GainsAre(b, Lo(b.g) + dlo, Hi(b.g) + dhi, Ev.band) ELSE GainsAre(b, 0, b.g[1] + dhi, Ev.band), "gains")
       \cup Kept
Mul80(x) == DPow(x, 80)
\* x = 10^(k/80): x^80 = 10^k
IsGain(x, k) == LET t == DPow(DOf(10, 0), IF k < 0 THEN -k ELSE k) y == DPow(x, 80) u == IF k < 0 THEN R(DMul(y, t)) ELSE y v == IF k < 0 THEN DOf(1, 0) ELSE t
                IN x.s = 1 /\ DCmp(DAbs(DSub(u, v)), [v EXCEPT !.e = @ - 30]) <= 0
RectFails ==
  LET b == gab.bs[Ev.i] r == Ev.rect y2 == DAdd(r.y, r.h) lo == IF r.h.s >= 0 THEN r.y ELSE y2 hi == IF r.h.s >= 0 THEN y2 ELSE r.y
      Close(x, k) == DCmp(DAbs(DSub(x, Q(k))), DOf(1, -30)) <= 0
  IN IF Ev.got # "ok" THEN {"refused"}
     ELSE Unless(Frac(r.x, F1(gab, b), 2 * gab.fd) /\ Frac(r.w, F2(gab, b) - F1(gab, b), 2 * gab.fd), "frequencies")
          \cup (IF Ev.o.db = 1 THEN Unless(Close(hi, Top(b)) /\ (Len(b.g) = 2 => Close(lo, Lo(b.g))), "gains")
                ELSE Unless(IsGain(hi, Top(b)) /\ (Len(b.g) = 2 => (Lo(b.g) = Hi(b.g) \/ IsGain(lo, Lo(b.g)))), "gains"))
\* a design: the filter satisfies the bands, narrowed by the margin and centered if asked for
Centre == LET S == {Lo(gab.bs[i].g) + Hi(gab.bs[i].g) : i \in {i \in 1..Len(gab.bs) : Len(gab.bs[i].g) = 2}} IN (CHOOSE x \in S : \A y \in S : y <= x) \div 8
Samples(b) == LET n == Fs(gab) * gab.fd IN <<DDiv(DOf(F1(gab, b), 0), n), DDiv(DOf(F2(gab, b), 0), n), DDiv(DOf(F1(gab, b) + F2(gab, b), 0), 2 * n)>>
DesignFails ==
  LET m == Ev.o.margin \div 4 c == IF Ev.o.centered = 1 THEN Centre ELSE 0
      BS == [i \in 1..Len(gab.bs) |-> [f1 |-> gab.bs[i].f1, f2 |-> gab.bs[i].f2, pass |-> Len(gab.bs[i].g) = 2, g |-> gab.bs[i].g]]
      Sat(b) == \A k \in 1..3 : LET v == ZInv(Samples(b)[k]) IN
                 IF Len(b.g) = 2 THEN GainCmp(Ev.num, Ev.den, v, Lo(b.g) \div 4 + m - c, 4) >= 0 /\ GainCmp(Ev.num, Ev.den, v, Hi(b.g) \div 4 - m - c, -4) <= 0
                 ELSE GainCmp(Ev.num, Ev.den, v, b.g[1] \div 4 - m - c, -4) <= 0
  IN IF Ev.got # "ok" THEN (IF Designable(BS) THEN {"refused"} ELSE Unless(Ev.got = "ValueError", "not a ValueError"))
     ELSE IF Shape(PassesOf(gab)) = "multiband" THEN {"accepted"}
     ELSE Unless(\A i \in 1..Len(gab.bs) : Sat(gab.bs[i]), "filter out of the gabarit") \cup Kept
\* a random gabarit is a consistent lowpass
RandomFails ==
  IF Ev.got # "ok" THEN {"refused"}
  ELSE LET b == Ev.bands IN
       Unless(Ev.type = "lowpass" /\ Len(b) = 2 /\ b[1].pass = 1 /\ b[2].pass = 0, "type")
       \cup Unless(b[1].F1.s = 0 /\ DCmp(b[1].F1, b[1].F2) < 0 /\ DCmp(b[1].F2, b[2].F1) <= 0 /\ DCmp(b[2].F1, b[2].F2) < 0 /\ DCmp(b[2].w2, DOf(1, 0)) = 0, "bands")
       \cup Unless(DCmp(b[1].pg[1], b[1].pg[2]) <= 0, "gains")
Fails == CASE Ev.ev = "begin" -> {}
           [] Ev.ev = "make" -> MakeFails
           [] Ev.ev = "sub" -> ShiftFails(-Ev.o.g, -Ev.o.g)
           [] Ev.ev = "margin" -> (IF Len(gab.bs[Ev.i].g) = 2 THEN ShiftFails(Ev.o.g, -Ev.o.g) ELSE ShiftFails(0, -Ev.o.g))
           [] Ev.ev = "badsub" -> Unless(Ev.got = "ValueError", "accepted")
           [] Ev.ev = "rect" -> RectFails
           [] Ev.ev = "design" -> DesignFails
           [] Ev.ev = "random" -> RandomFails
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
TraceInit == l = 1 /\ gab = << >>
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ l' = l + 1 /\ gab' = (IF Ev.ev = "make" THEN Sorted(Ev.o.g) ELSE gab)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, gab>>
=============================================================================
