-------------------------------- MODULE Tilde --------------------------------
(***************************************************************************)
(* The error of a degraded implicit form: z the exact form, zt the form    *)
(* with degraded coefficients, whose computed variables are moreover moved *)
(* by eps = (et, ex, ey).  The error system takes (u, et, ex, ey) and gives*)
(* the output of the degraded form minus the output of the exact one.      *)
(***************************************************************************)
EXTENDS SIF
\* zt with the perturbations as additional inputs
PickM(r, d, off) == Mk(r, d, LAMBDA i, j : IF j = off + i THEN 1 ELSE 0)
Perturbed(z) == LET d == l_(z) + n_(z) + p_(z) IN
  [z EXCEPT !.N = HCat(z.N, PickM(l_(z), d, 0)), !.Q = HCat(z.Q, PickM(n_(z), d, l_(z))), !.S = HCat(z.S, PickM(p_(z), d, l_(z) + n_(z)))]
\* z ignoring them
Widened(z) == LET d == l_(z) + n_(z) + p_(z) IN
  [z EXCEPT !.N = HCat(z.N, Zeros(l_(z), d)), !.Q = HCat(z.Q, Zeros(n_(z), d)), !.S = HCat(z.S, Zeros(p_(z), d))]
MinusSS(a, b) == SS(VCat(HCat(a.A, Zeros(a.A.r, b.A.r)), HCat(Zeros(b.A.r, a.A.r), b.A)), VCat(a.B, b.B), HCat(a.C, MNeg(b.C)), MAdd(a.D, MNeg(b.D)))
ErrSys(z, zt) == MinusSS(SysOf(Perturbed(zt)), SysOf(Widened(z)))
(***************************************************************************)
(* One implicit form for it: variables (t, t~ - t), states (x, x~ - x).    *)
(***************************************************************************)
Low(m, mt) == VCat(HCat(m, Zeros(m.r, m.c)), HCat(MSub(mt, m), mt))
ErrForm(z, zt) ==
  LET w == Widened(z) pt == Perturbed(zt) IN
  [J |-> Low(z.J, zt.J), K |-> Low(z.K, zt.K), M |-> Low(z.M, zt.M), PP |-> Low(z.PP, zt.PP),
   L |-> HCat(MSub(zt.L, z.L), zt.L), R |-> HCat(MSub(zt.R, z.R), zt.R), S |-> MSub(pt.S, w.S),
   N |-> VCat(w.N, MSub(pt.N, w.N)), Q |-> VCat(w.Q, MSub(pt.Q, w.Q))]
=============================================================================
