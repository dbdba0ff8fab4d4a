--------------------------------- MODULE Enum ---------------------------------
(***************************************************************************)
(* The registry of structures and its enumeration.  A structure has a      *)
(* short name, options - a sequence of [n |-> name, v |-> <<values>>], the *)
(* first value being the default - and an acceptance rule.                 *)
(* A choice is the function from the option names to one of their values.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
OptNames(st) == {st.opts[i].n : i \in 1..Len(st.opts)}
OptVals(st, n) == LET i == CHOOSE i \in 1..Len(st.opts) : st.opts[i].n = n IN {st.opts[i].v[k] : k \in 1..Len(st.opts[i].v)}
Product(st) == {c \in [OptNames(st) -> UNION {OptVals(st, n) : n \in OptNames(st)}] : \A n \in OptNames(st) : c[n] \in OptVals(st, n)}
Default(st) == [n \in OptNames(st) |-> LET i == CHOOSE i \in 1..Len(st.opts) : st.opts[i].n = n IN st.opts[i].v[1]]
SISO(f) == f.p = 1 /\ f.q = 1
\* the acceptance rules
Accepts(rule, f, c) ==
  CASE rule[1] = "all" -> TRUE
    [] rule[1] = "none" -> FALSE
    [] rule[1] = "siso" -> SISO(f)
    [] rule[1] = "mimo" -> ~SISO(f)
    [] rule[1] = "stable" -> f.stable
    [] rule[1] = "siso stable" -> SISO(f) /\ f.stable /\ f.n > 0
    [] rule[1] = "form" -> (c["form"] = "None" \/ SISO(f))                    \* state-space forms
    [] rule[1] = "opt" -> (rule[2] \in DOMAIN c => c[rule[2]] = rule[3])      \* one value of one option only
    [] rule[1] = "opt siso" -> (SISO(f) \/ (rule[2] \in DOMAIN c => c[rule[2]] = rule[3]))
\* what the enumeration of a filter is, as a set of <<short name, choice>>
Enumeration(reg, f) == UNION {{<<s, c>> : c \in {c \in Product(reg[s]) : Accepts(reg[s].rule, f, c)}} : s \in DOMAIN reg}
=============================================================================
