-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Names of the variables and text of the sums of products.                *)
(*                                                                         *)
(* A variable is [nm, idx, sur, sidx, sh]: its name and index in the SIF,  *)
(* and possibly a surname with its own index and time shift (x2(k) may     *)
(* also be called u3(k-1)).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
NoIdx == -1
Var(nm, idx, sur, sidx, sh) == [nm |-> nm, idx |-> idx, sur |-> sur, sidx |-> sidx, sh |-> sh]
HasSur(v) == v.sur # ""
\* word displayed, and its index, with or without the surname
Word(v, ws) == IF ws /\ HasSur(v) THEN v.sur ELSE v.nm
Index(v, ws) == IF ws /\ HasSur(v) THEN v.sidx ELSE v.idx
IdxStr(i, latex) == IF i = NoIdx THEN "" ELSE IF latex THEN "_{" \o ToString(i) \o "}" ELSE ToString(i)
Base(v, ws) == Word(v, ws) \o IdxStr(Index(v, ws), FALSE)
\* time denoted: k + Delay
Delay(v, shift, ws) == shift + (IF ws THEN v.sh ELSE 0)
TimeStr(d) == IF d = 0 THEN "(k)" ELSE IF d > 0 THEN "(k+" \o ToString(d) \o ")" ELSE "(k" \o ToString(d) \o ")"
\* the printed forms that carry this information (the suffix may precede or follow the index)
Printed(v, o) ==
  LET w == Word(v, o.ws) i == IdxStr(Index(v, o.ws), o.latex)
      t == IF o.time THEN TimeStr(Delay(v, o.shift, o.ws)) ELSE ""
      dollar(s) == IF o.latex THEN "$" \o s \o "$" ELSE s
  IN {dollar(w \o i \o o.suffix \o t), dollar(w \o o.suffix \o i \o t)}

\* list of n names; surs: <<>> (none) or one [s, i, sh] per variable
NameList(base, n, surs) ==
  [k \in 1..n |-> LET idx == IF n > 1 THEN k ELSE NoIdx IN
     IF surs = << >> THEN Var(base, idx, "", NoIdx, 0)
     ELSE Var(base, idx, surs[k].s, surs[k].i, surs[k].sh)]
Plain(shift, time) == [ws |-> FALSE, shift |-> shift, time |-> time, suffix |-> "", latex |-> FALSE]
=============================================================================
