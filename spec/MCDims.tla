-------------------------------- MODULE MCDims --------------------------------
(***************************************************************************)
(* The matrices are looked at one after another; a symbol takes its value  *)
(* the first time it is met and is compared afterwards.  Accepted exactly  *)
(* when there are values of the symbols that suit all the matrices.        *)
(***************************************************************************)
EXTENDS Dims
CONSTANTS MaxD
VARIABLES kind, k, known, cand, sh, state
vars == <<kind, k, known, cand, sh, state>>
Unknown == 99
Cmp(kn, s, v) == kn[s] = Unknown \/ kn[s] = v
See(kn, s, v) == IF kn[s] = Unknown THEN [kn EXCEPT ![s] = v] ELSE kn
Accept1(kn, w, r, c) == Cmp(kn, w[1], r) /\ Cmp(See(kn, w[1], r), w[2], c)
Init == /\ kind \in {"sif", "ss"} /\ k = 0 /\ state = "open" /\ sh = << >>
        /\ known = [s \in Range1(Syms(kind)) |-> Unknown] /\ cand = Vals(kind, MaxD)
Look(r, c) ==
  LET w == Shape(kind)[k + 1] IN
  /\ state = "open" /\ k < Len(Shape(kind))
  /\ k' = k + 1 /\ UNCHANGED kind /\ sh' = Append(sh, <<r, c>>)
  /\ cand' = {v \in cand : v[w[1]] = r /\ v[w[2]] = c}
  /\ IF Accept1(known, w, r, c)
     THEN known' = See(See(known, w[1], r), w[2], c) /\ state' = IF k + 1 = Len(Shape(kind)) THEN "built" ELSE "open"
     ELSE known' = known /\ state' = "refused"
Next == \E r, c \in 0..MaxD : Look(r, c)
Spec == Init /\ [][Next]_vars
View == <<kind, k, known, cand, state>>
Sound == /\ state = "refused" <=> cand = {}
         /\ state # "refused" => cand = {v \in Vals(kind, MaxD) : \A s \in DOMAIN known : known[s] \in {Unknown, v[s]}}
         /\ state = "built" => cand = {known}
\* the definition used on the traces
Decides == k = Len(Shape(kind)) => (Consistent(kind, sh) <=> state = "built") /\ (state = "built" => Sol(kind, sh) = known)
RowsOnly(kn, w, r, c) == Cmp(kn, w[1], r)
ColsAtOnce(kn, w, r, c) == Cmp(kn, w[1], r) /\ Cmp(kn, w[2], c)
ZeroFree(kn, w, r, c) == r = 0 \/ c = 0 \/ (Cmp(kn, w[1], r) /\ Cmp(See(kn, w[1], r), w[2], c))
=============================================================================
