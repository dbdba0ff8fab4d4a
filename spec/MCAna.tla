-------------------------------- MODULE MCAna --------------------------------
(***************************************************************************)
(* (1) the defining equations used by Ana characterise the energy and the  *)
(*     sum of the impulse response: for every nilpotent A over GF(P) the   *)
(*     solution of the Lyapunov equation is the sum of the A^k B B' A'^k,  *)
(*     tr(C Wc C' + D D') = tr(B' Wo B + D' D) is the energy, and          *)
(*     C (I-A)^-1 B + D is the sum of the impulse response;                *)
(* (2) objects that keep the values they have computed: every history of   *)
(*     reads and similarity transforms.                                    *)
(***************************************************************************)
EXTENDS GF
CONSTANTS N, MaxSteps
VARIABLES S, memo, steps, ok
vars == <<S, memo, steps, ok>>
Fld == 0..(P - 1)
AllM(r, c) == {[r |-> r, c |-> c, e |-> e] : e \in [1..r -> [1..c -> Fld]]}
RECURSIVE MPow(_, _)
MPow(a, k) == IF k = 0 THEN Eye(a.r) ELSE MMul(a, MPow(a, k - 1))
Nil == {a \in AllM(N, N) : MPow(a, N) = Zeros(N, N)}
Ts == {t \in AllM(N, N) : Invertible(t)}
RECURSIVE SumM(_, _)
SumM(f, k) == IF k = 0 THEN f[0] ELSE MAdd(f[k], SumM(f, k - 1))
Sum0(f) == SumM(f, N)
WcOf(s) == Sum0([k \in 0..N |-> LET x == MMul(MPow(s.A, k), s.B) IN MMul(x, Tr(x))])
WoOf(s) == Sum0([k \in 0..N |-> LET x == MMul(s.C, MPow(s.A, k)) IN MMul(Tr(x), x)])
H2Of(s) == Trace1(MAdd(MMul(MMul(s.C, WcOf(s)), Tr(s.C)), MMul(s.D, Tr(s.D))))
H2Of2(s) == Trace1(MAdd(MMul(MMul(Tr(s.B), WoOf(s)), s.B), MMul(Tr(s.D), s.D)))
DCOf(s) == MAdd(MMul(MMul(s.C, MInv(MSub(Eye(N), s.A))), s.B), s.D)
Imp(s) == Markov(s, N + 2)
Energy(s) == SumTo(N + 2, LAMBDA k : Trace1(MMul(Imp(s)[k], Tr(Imp(s)[k]))))
SumImp(s) == LET h == Imp(s) IN FoldLeft(LAMBDA a, k : MAdd(a, h[k]), Zeros(NOut(s), NIn(s)), Idx(N + 2))
\* a kept value is a sequence: empty or <<value>>
Empty == [Wo |-> << >>, Wc |-> << >>, H2 |-> << >>, DC |-> << >>]
Value(s, w) == CASE w = "Wo" -> WoOf(s) [] w = "Wc" -> WcOf(s) [] w = "H2" -> H2Of(s) [] OTHER -> DCOf(s)
Init == /\ S \in {SS(a, b, c, d) : a \in Nil, b \in AllM(N, 1), c \in AllM(1, N), d \in AllM(1, 1)}
        /\ memo = Empty /\ steps = 0 /\ ok = TRUE
\* the value given by a read: the one kept, if any
Got(w) == IF memo[w] = << >> THEN Value(S, w) ELSE memo[w][1]
Read(w) == /\ ok' = (Got(w) = Value(S, w)) /\ memo' = [memo EXCEPT ![w] = <<Got(w)>>] /\ UNCHANGED S
AfterSimil(m) == Empty
Simil(t) == S' = SSSimil(S, t) /\ memo' = AfterSimil(memo) /\ UNCHANGED ok
Next == steps < MaxSteps /\ steps' = steps + 1 /\ ((\E w \in DOMAIN memo : Read(w)) \/ (\E t \in Ts : Simil(t)))
Spec == Init /\ [][Next]_vars
Fresh == ok
EqOK == /\ MSub(MAdd(MMul(MMul(S.A, WcOf(S)), Tr(S.A)), MMul(S.B, Tr(S.B))), WcOf(S)) = Zeros(N, N)
        /\ MSub(MAdd(MMul(MMul(Tr(S.A), WoOf(S)), S.A), MMul(Tr(S.C), S.C)), WoOf(S)) = Zeros(N, N)
        /\ H2Of(S) = Energy(S) /\ H2Of2(S) = Energy(S) /\ DCOf(S) = SumImp(S)
KeepAll(m) == m
KeepGramian(m) == [Empty EXCEPT !.Wo = m.Wo]
BadWo(s) == Sum0([k \in 0..N |-> LET x == MMul(s.C, MPow(Tr(s.A), k)) IN MMul(Tr(x), x)])
=============================================================================
