------------------------------- MODULE AnaTrace -------------------------------
(***************************************************************************)
(* Trace validation of the analysis values of dSS and dTF.  Every number   *)
(* is logged exactly (dyadic).  An event carries the systems of all the    *)
(* objects after the call, the value read, and witnesses (computed on a    *)
(* fresh object, and checked here) for the equations that need one.        *)
(***************************************************************************)
EXTENDS TraceLib, Ana
VARIABLES l, sys, req
\* req[i]: the last request made to the WCPG library for object i, and its answer
Ev == Trace[l]
Num(d) == d.s \in {-1, 0, 1}
IsMat2(m) == Len(m.e) = m.r /\ \A i \in 1..m.r : Len(m.e[i]) = m.c
Nums(m) == IsMat2(m) /\ \A i \in 1..m.r : \A j \in 1..m.c : Num(m.e[i][j])
SysOK(s) == Nums(s.A) /\ Nums(s.B) /\ Nums(s.C) /\ Nums(s.D)
\* WCPG library requests made during the call, as state-spaces
ReqFails(i, s) ==
  IF Len(Ev.calls) = 0
  THEN (IF req[i] = << >> THEN {"WCPG not requested"} ELSE Unless(NearIO(req[i][1], s, s.A.r + req[i][1].A.r) /\ Near(Ev.val, req[i][2]), "WCPG of another system"))
  ELSE LET r == Ev.calls[Len(Ev.calls)] IN
       IF ~SysOK(r.s) THEN {"WCPG of another system"}
       ELSE Unless(BSame(r.s.D, s.D) /\ NearIO(r.s, s, s.A.r + r.s.A.r), "WCPG of another system") \cup Unless(Ev.val = r.ret, "WCPG value")
ReadFails ==
  LET i == Ev.o.i s == sys[i] w == Ev.o.w IN
  IF Ev.got = "raise" THEN {"refused"}
  ELSE IF ~Nums(Ev.val) THEN {"not numbers"}
  ELSE CASE w \in {"Wo", "calcWo"} -> Unless(IsWo(s, Ev.val), "Wo")
         [] w \in {"Wc", "calcWc"} -> Unless(IsWc(s, Ev.val), "Wc")
         [] w = "H2" -> (LET h == Ev.val.e[1][1] IN
                         Unless(IsWc(s, Ev.wit), "witness") \cup Unless(h.s >= 0 /\ DNear(DMul(h, h), H2Sq(s, Ev.wit)), "H2 norm"))
         [] w = "DC" -> Unless(IsX(s, Ev.wit), "witness") \cup Unless(Near(Ev.val, DC(s, Ev.wit)), "DC gain")
         [] w = "W" -> ReqFails(i, s)
         [] w = "Winfo" -> ReqFails(i, s) \cup Unless(Ev.info = 1, "output_info not filled")
Others(i) == \A k \in 1..Len(sys) : k = i \/ Ev.objs[k] = sys[k]
SimFails ==
  LET i == Ev.o.i s == sys[i] z == Ev.objs[i] IN
  IF Ev.o.bad # "" THEN Unless(Ev.got = "raise", "accepted") \cup Unless(z = s, "modified by a refused transform")
  ELSE IF Ev.got = "raise" THEN {"refused"}
  ELSE IF ~SysOK(z) THEN {"not numbers"}
  ELSE Unless(IsSimil(s, Ev.T, z), "similarity")
Near1(m, t) == Near(m, t)
TFFails == IF Ev.got = "raise" THEN {"refused"}
           ELSE IF Len(Ev.calls) # 1 THEN {"WCPG not requested"}
           ELSE Unless(Near(Ev.calls[1].num, Ev.num) /\ Near(Ev.calls[1].den, Ev.den), "WCPG of another system")
                \cup Unless(Ev.val = Ev.calls[1].ret, "WCPG value") \cup Unless(Ev.again = Ev.val, "WCPG value")
\* a pole on the unit circle: Wo, Wc and the H2 norm do not exist; the DC gain does, unless 1 is a pole
MargFails ==
  IF Ev.got = "raise" THEN {"refused"}
  ELSE LET one == \E i \in 1..Ev.s.A.r : Ev.s.A.e[i][i] = DOf(1, 0)
           ok(x) == IF x.w # "DC" \/ one THEN x.got = "ValueError"
                    ELSE x.got = "ok" /\ Nums(x.val) /\ IsX(Ev.s, Ev.wit) /\ Near(x.val, DC(Ev.s, Ev.wit)) IN
       Unless(\A k \in DOMAIN Ev.res : ok(Ev.res[k]), "value of a marginal system") \cup Unless(Ev.s1 = Ev.s, "system modified")
Fails == CASE Ev.ev = "begin" -> {}
           [] Ev.ev = "new" -> Unless(Ev.got = "ok", "refused")
           [] Ev.ev = "read" -> ReadFails \cup Unless(Others(0), "system modified")
           [] Ev.ev = "simil" -> SimFails \cup Unless(Others(Ev.o.i), "system modified")
           [] Ev.ev = "tf" -> TFFails
           [] Ev.ev = "marg" -> MargFails \cup Unless(Others(0), "system modified")
           [] Ev.ev \in Broken -> {Ev.ev}
           [] OTHER -> {}
Step == CASE Ev.ev = "begin" -> sys' = << >> /\ req' = << >>
          [] Ev.ev = "new" -> sys' = Ev.objs /\ req' = Append(req, << >>)
          [] Ev.ev = "simil" -> sys' = Ev.objs /\ req' = req
          [] Ev.ev = "read" -> /\ sys' = sys
                               /\ req' = IF Ev.got = "ok" /\ Len(Ev.calls) > 0 THEN [req EXCEPT ![Ev.o.i] = <<Ev.calls[Len(Ev.calls)].s, Ev.calls[Len(Ev.calls)].ret>>] ELSE req
          [] OTHER -> UNCHANGED <<sys, req>>
TraceInit == l = 1 /\ sys = << >> /\ req = << >>
TraceNext == l <= Len(Trace) /\ Verdict(l, Fails) = TRUE /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, sys, req>>
=============================================================================
