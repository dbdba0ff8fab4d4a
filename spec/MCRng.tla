--------------------------------- MODULE MCRng ---------------------------------
(***************************************************************************)
(* All the histories of: a number drawn by someone else, the stream seeded *)
(* by someone else, a generation (with a seed, without, from a name), an   *)
(* iterator started (its seeds are drawn then) and pulled.                 *)
(***************************************************************************)
EXTENDS Rng
CONSTANTS MaxLen, Pars, Seeds
VARIABLES rng, log, its, len
vars == <<rng, log, its, len>>
\* design points, overridden by the broken designs
Seed(r, s) == Seeding(r, s)                  \* how the seed of a generation is applied
NameOf(par, seed, r) == Name(par, seed)
Entry(par, seed, r) == [par |-> par, seed |-> seed, val |-> Drawn(Seed(r, seed), par), name |-> NameOf(par, seed, r)]
Gen(par, seed, r) == log' = log \cup {Entry(par, seed, r)} /\ rng' = After(Seed(r, seed), par)
Init == rng = <<OS, 0>> /\ log = {} /\ its = << >> /\ len = 0
Number == 2
\* an iterator draws its seeds when it begins (when the first filter is asked for)
Draw(r, seeded) == IF seeded THEN [k \in 1..Number |-> AsSeed(<<r[1], r[2] + k - 1>>)] ELSE [k \in 1..Number |-> NoSeed]
Start(seeded) == its' = Append(its, [seeded |-> seeded, seeds |-> << >>, k |-> 0]) /\ UNCHANGED <<rng, log>>
\* what the iterator itself draws before each filter (the size of the filter): any value
Pull(i, par) ==
  LET x == its[i]
      seeds == IF x.seeds = << >> THEN Draw(rng, x.seeded) ELSE x.seeds
      r0 == IF x.seeds = << >> /\ x.seeded THEN <<rng[1], rng[2] + Number>> ELSE rng
      y == [x EXCEPT !.seeds = seeds, !.k = @ + 1]
  IN x.k < Number /\ its' = [its EXCEPT ![i] = y] /\ Gen(par, y.seeds[y.k], <<r0[1], r0[2] + 1>>)
Step ==
  \/ rng' = <<rng[1], rng[2] + 1>> /\ UNCHANGED <<log, its>>
  \/ \E s \in Seeds : rng' = <<<<s>>, 0>> /\ UNCHANGED <<log, its>>
  \/ \E par \in Pars, s \in {NoSeed} \cup {<<s>> : s \in Seeds} : Gen(par, s, rng) /\ its' = its
  \/ \E e \in log : e.seed # NoSeed /\ Gen(e.name[1], e.name[2], rng) /\ its' = its
  \/ Len(its) < 2 /\ \E b \in BOOLEAN : Start(b)
  \/ \E i \in 1..Len(its), par \in Pars : Pull(i, par)
Next == len < MaxLen /\ len' = len + 1 /\ Step
Spec == Init /\ [][Next]_vars
Reproducible == Function(log) /\ Named(log)
\* broken designs
SeedTruthy(r, s) == IF s = NoSeed \/ s = <<0>> THEN r ELSE <<s, 0>>
NameAsked(par, seed, r) == <<par, IF seed = NoSeed THEN seed ELSE <<r[2]>>>>
SeedAdds(r, s) == IF s = NoSeed THEN r ELSE <<s, r[2] % 2>>   \* seeded, after a draw whose number depends on the past
================================================================================
