--------------------------------- MODULE CRun ---------------------------------
(***************************************************************************)
(* Running generated C code, in one process: each realization compiles its *)
(* code at the first run after a change of its coefficients, in a library  *)
(* that the dynamic loader identifies by its path (a path already loaded   *)
(* gives the library loaded first).  Coefficients are abstracted to        *)
(* version numbers; a program is the version it was compiled from.         *)
(*   UniquePath: every compilation uses its own path;                      *)
(*   ResetProg: an assignment forgets the compiled program;                *)
(*   CheckRc: a failed compilation is an error.                            *)
(* The design has the three; without any of them Coherent is violated      *)
(* (checked by C04).                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxObj, MaxVer, UniquePath, ResetProg, CheckRc
VARIABLES coef,    \* object -> version of its coefficients
          prog,    \* object -> version compiled, 0 if none
          loaded,  \* path -> version loaded
          file,    \* path -> version in the file, 0 if the compiler failed
          fresh,   \* next version
          last     \* last answer: <<object, version run or -1 if an error was raised>>
vars == <<coef, prog, loaded, file, fresh, last>>
Objs == 1..MaxObj
Live == DOMAIN coef
Init == coef = (1 :> 1) /\ prog = (1 :> 0) /\ loaded = << >> /\ file = << >> /\ fresh = 2 /\ last = <<1, -1>>
Set(i) == fresh <= MaxVer /\ coef' = [coef EXCEPT ![i] = fresh] /\ prog' = [prog EXCEPT ![i] = IF ResetProg THEN 0 ELSE @]
          /\ fresh' = fresh + 1 /\ UNCHANGED <<loaded, file, last>>
\* a new realization (built or quantized: a copy of the attributes must not take the compiled program with it)
New(i, j) == /\ fresh <= MaxVer /\ j \notin Live /\ coef' = (j :> fresh) @@ coef
             /\ prog' = (j :> IF ResetProg THEN 0 ELSE prog[i]) @@ prog /\ fresh' = fresh + 1 /\ UNCHANGED <<loaded, file, last>>
Path(i) == IF UniquePath THEN Cardinality(DOMAIN file) + 1 ELSE 1
Compile(i, ok) == LET p == Path(i)
                      f == IF ok THEN coef[i] ELSE IF p \in DOMAIN file THEN file[p] ELSE 0 IN
  /\ file' = (p :> f) @@ file
  /\ IF (CheckRc /\ ~ok) \/ f = 0 THEN loaded' = loaded /\ prog' = prog /\ last' = <<i, -1>>
     ELSE /\ loaded' = IF p \in DOMAIN loaded THEN loaded ELSE (p :> f) @@ loaded
          /\ prog' = [prog EXCEPT ![i] = loaded'[p]] /\ last' = <<i, loaded'[p]>>
Run(i, ok) == /\ IF prog[i] # 0 THEN last' = <<i, prog[i]>> /\ UNCHANGED <<loaded, file, prog>> ELSE Compile(i, ok)
              /\ UNCHANGED <<coef, fresh>>
Next == \/ \E i \in Live : Set(i) \/ \E ok \in BOOLEAN : Run(i, ok)
        \/ \E i \in Live, j \in Objs : New(i, j)
Bounded == Cardinality(DOMAIN file) <= 5
Spec == Init /\ [][Next]_vars
Coherent == [][\A i \in Live : (last' # last /\ last'[1] = i) => last'[2] \in {-1, coef[i]}]_vars
\* a program kept is always that of the current coefficients
Kept == \A i \in Live : prog[i] \in {0, coef[i]}
=============================================================================
