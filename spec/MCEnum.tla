-------------------------------- MODULE MCEnum --------------------------------
(***************************************************************************)
(* Enumeration as it is done: structures in the order of registration, the *)
(* combinations of values of each one by an odometer, several enumerations *)
(* (of different filters) being in progress at the same time.  Each one    *)
(* gives its Enumeration, every element once.                              *)
(***************************************************************************)
EXTENDS Enum, SequencesExt
CONSTANTS NIter
VARIABLES reg, order, it
vars == <<reg, order, it>>
Filters == {[p |-> 1, q |-> 1, n |-> 1, stable |-> TRUE], [p |-> 2, q |-> 1, n |-> 1, stable |-> TRUE], [p |-> 1, q |-> 1, n |-> 0, stable |-> FALSE]}
OptSets == {<< >>, << [n |-> "a", v |-> <<"1", "2">>] >>, << [n |-> "a", v |-> <<"1", "2">>], [n |-> "b", v |-> <<"x", "y", "z">>] >>, << [n |-> "b", v |-> <<"x">>] >>}
Rules == {<<"all", "", "">>, <<"siso", "", "">>, <<"siso stable", "", "">>, <<"opt", "a", "2">>, <<"opt siso", "b", "y">>}
Structs == {[opts |-> o, rule |-> r] : o \in OptSets, r \in Rules}
Start(f) == [f |-> f, s |-> 1, idx |-> << >>, out |-> << >>, done |-> FALSE]
Init == /\ \E a, b \in Structs : reg = [s \in {"A", "B"} |-> IF s = "A" THEN a ELSE b] /\ order \in {<<"A", "B">>, <<"B", "A">>}
        /\ it \in [1..NIter -> {Start(f) : f \in Filters}]
\* the indices of the first combination, and the next ones (the last option varies first)
First(st) == [i \in 1..Len(st.opts) |-> 1]
RECURSIVE Bump(_, _, _)
Bump(st, idx, i) == IF i = 0 THEN << >> ELSE IF idx[i] < Len(st.opts[i].v) THEN [idx EXCEPT ![i] = @ + 1] ELSE Bump(st, [idx EXCEPT ![i] = 1], i - 1)
Choice(st, idx) == [n \in OptNames(st) |-> LET i == CHOOSE i \in 1..Len(st.opts) : st.opts[i].n = n IN st.opts[i].v[idx[i]]]
Keep(st, f, c) == Accepts(st.rule, f, c)
\* one combination: looked at and yielded if it is accepted
Step(i) ==
  LET x == it[i] s == order[x.s] st == reg[s]
      idx == IF x.idx = << >> THEN First(st) ELSE x.idx
      c == Choice(st, idx)
      nxt == Bump(st, idx, Len(st.opts))
      y == [x EXCEPT !.out = IF Keep(st, x.f, c) THEN Append(@, <<s, c>>) ELSE @]
  IN /\ ~x.done
     /\ it' = [it EXCEPT ![i] = IF nxt # << >> THEN [y EXCEPT !.idx = nxt]
                                ELSE IF x.s = Len(order) THEN [y EXCEPT !.done = TRUE, !.idx = << >>]
                                ELSE [y EXCEPT !.s = @ + 1, !.idx = << >>]]
     /\ UNCHANGED <<reg, order>>
Next == \E i \in 1..NIter : Step(i)
Spec == Init /\ [][Next]_vars
Each == \A i \in 1..NIter :
  /\ \A a, b \in 1..Len(it[i].out) : it[i].out[a] = it[i].out[b] => a = b
  /\ ToSet(it[i].out) \subseteq Enumeration(reg, it[i].f)
  /\ it[i].done => ToSet(it[i].out) = Enumeration(reg, it[i].f)
DefaultOK == \A s \in DOMAIN reg : Default(reg[s]) \in Product(reg[s]) /\ Cardinality(Product(reg[s])) = FoldLeft(LAMBDA a, o : a * Len(o.v), 1, reg[s].opts)
KeepDefault(st, f, c) == Accepts(st.rule, f, Default(st))
RECURSIVE BadBump(_, _, _)
BadBump(st, idx, i) == IF i = 0 THEN << >> ELSE IF idx[i] < Len(st.opts[i].v) THEN [idx EXCEPT ![i] = @ + 1] ELSE BadBump(st, idx, i - 1)
=============================================================================
