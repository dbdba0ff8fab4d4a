----------------------------- MODULE MCStructures -----------------------------
(* every filter of small order over GF(P), every structure and option: the structure realizes the filter *)
EXTENDS Structures
CONSTANTS ORDERS, RHO        \* orders of the direct forms, of the rho form
VARIABLE z, f, what
Fld == 0..(P - 1)
Unit == 1..(P - 1)
TFs(n) == {TF(b, a) : b \in [1..(n + 1) -> Fld], a \in {x \in [1..(n + 1) -> Fld] : x[1] # 0}}
F(H) == [kind |-> "tf", h |-> H]
Small == {<<1>>, <<2>>}
B_(n) == Mk(n, 1, LAMBDA i, j : i % P)
C_(n) == Mk(1, n, LAMBDA i, j : (j + 1) % P)
Alphas(n) == {x \in [1..n -> Fld] : PivotsOK(x) /\ Invertible(MSub(Eye(n), FTri(x)))}
LFilt(al) == [kind |-> "ss", s |-> SS(LGSA(al), B_(Len(al)), C_(Len(al)), Scalar(1))]
None == [none |-> 0]
Init ==
  /\ z = None
  /\ \/ \E n \in ORDERS : \E H \in TFs(n) :
         /\ f = F(H)
         /\ \/ \E s \in {1, 2}, t \in BOOLEAN : what = <<"DFI", s, t>>
            \/ \E t \in BOOLEAN : what = <<"DFII", t>>
            \/ what = <<"ctrl">>
            \/ what = <<"obs">>
     \/ \E n \in RHO : \E H \in {x \in TFs(n) : x.den[1] = 1} :
         /\ f = F(H)
         /\ \E g \in [1..n -> Fld], d \in [1..n -> Unit], t, s \in BOOLEAN : what = <<"rho", g, d, t, s>>
     \/ \E n \in 1..3 : \E al \in Alphas(n) : f = LFilt(al) /\ (what = <<"LGS", al>> \/ (n > 1 /\ what = <<"LCW", al>>))
Build == CASE what[1] = "DFI" -> DFI(f.h, what[2], what[3])
           [] what[1] = "DFII" -> DFII(f.h, what[2])
           [] what[1] = "ctrl" -> SSForm(Ctrl(f.h))
           [] what[1] = "obs" -> SSForm(Obs(f.h))
           [] what[1] = "rho" -> RhoDFII(f.h, what[2], what[3], what[4], what[5])
           [] what[1] = "LGS" -> LGSZ(what[2], f.s.B, f.s.C, f.s.D)
           [] what[1] = "LCW" -> LCWZ(what[2], f.s.B, f.s.C, f.s.D)
Next == z = None /\ z' = Build /\ UNCHANGED <<f, what>>
Spec == Init /\ [][Next]_<<z, f, what>>
Built == z # None
TypeOK == Built => DimOK(z)
AllRealize == Built => Realizes(z, f)
AllExecutable == Built => Executable(z)
=============================================================================
