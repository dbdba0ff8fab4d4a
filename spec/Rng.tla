---------------------------------- MODULE Rng ----------------------------------
(***************************************************************************)
(* Generators over one shared stream of random numbers.                    *)
(* The stream is <<source, position>>, a source being a sequence of        *)
(* numbers (a seed, or where it was drawn); what is drawn is the state of  *)
(* the stream (ideal: different states give different numbers).            *)
(* A generation with a seed first moves the stream to <<seed, 0>>; its     *)
(* result is what it drew, with its parameters, and its name carries the   *)
(* parameters and the seed.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NoSeed == << >>
OS == <<8>>
AsSeed(rng) == rng[1] \o <<9, rng[2]>>       \* a seed drawn from the stream
\* the values drawn by one generation with parameter par (par + 1 numbers) and the stream afterwards
Seeding(rng, seed) == IF seed = NoSeed THEN rng ELSE <<seed, 0>>
Drawn(rng, par) == <<par, rng, par + 1>>
After(rng, par) == <<rng[1], rng[2] + par + 1>>
Name(par, seed) == <<par, seed>>
\* whole of the results: equal keys have equal values
Function(log) == \A a, b \in log : (a.par = b.par /\ a.seed = b.seed /\ a.seed # NoSeed) => a.val = b.val
\* a name is that of one filter
Named(log) == \A a, b \in log : (a.seed # NoSeed /\ a.name = b.name) => a.val = b.val
(* the types of a random filter, and the ranges (mini included, maxi excluded) *)
Types == {"SISO", "SIMO", "MISO", "MIMO"}
One == <<1, 2>>
RangeP(type, p) == IF type \in {"SISO", "MISO"} THEN One ELSE p
RangeQ(type, q) == IF type \in {"SISO", "SIMO"} THEN One ELSE q
In(x, r) == r[1] <= x /\ x < r[2]
OfType(type, p, q, np, nq) == In(np, RangeP(type, p)) /\ In(nq, RangeQ(type, q))
OfTypes(type, p, q, np, nq) == IF type \in Types THEN OfType(type, p, q, np, nq) ELSE \E t \in Types : OfType(t, p, q, np, nq)
================================================================================
