--------------------------------- MODULE Prec ---------------------------------
(***************************************************************************)
(* The working precision of the multiprecision library as a global         *)
(* variable: the user sets it, library functions may change it while they  *)
(* work, call each other, return or raise at any point.                    *)
(*   user  : the precision the user has set                                *)
(*   prec  : the current one                                               *)
(*   stack : active calls [saved |-> precision found, in |-> changed it?, work |-> to this]  *)
(*   up    : an exception is propagating                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Precs, Depth
VARIABLES prec, user, stack, up
vars == <<prec, user, stack, up>>
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
\* how a function that changes the precision puts it back
Keep(p) == p
OnReturn(f, p) == IF f.in THEN Keep(f.saved) ELSE p
OnRaise(f, p) == OnReturn(f, p)
Init == prec \in Precs /\ user = prec /\ stack = << >> /\ up = FALSE
UserSet == stack = << >> /\ \E p \in Precs : prec' = p /\ user' = p /\ UNCHANGED <<stack, up>>
Call == ~up /\ Len(stack) < Depth /\ stack' = Append(stack, [saved |-> prec, in |-> FALSE, work |-> 0]) /\ UNCHANGED <<prec, user, up>>
Enter == ~up /\ stack # << >> /\ ~Top.in /\ \E p \in Precs : prec' = p /\ stack' = Append(Pop, [Top EXCEPT !.in = TRUE, !.saved = prec, !.work = p]) /\ UNCHANGED <<user, up>>
Return == ~up /\ stack # << >> /\ prec' = OnReturn(Top, prec) /\ stack' = Pop /\ UNCHANGED <<user, up>>
Raise == ~up /\ stack # << >> /\ up' = TRUE /\ UNCHANGED <<prec, user, stack>>
Unwind == up /\ stack # << >> /\ prec' = OnRaise(Top, prec) /\ stack' = Pop /\ UNCHANGED <<user, up>>
\* a caller (or the user) catches the exception
Catch == up /\ up' = FALSE /\ UNCHANGED <<prec, user, stack>>
Next == UserSet \/ Call \/ Enter \/ Return \/ Raise \/ Unwind \/ Catch
Spec == Init /\ [][Next]_vars
Left == stack = << >> => prec = user
\* whoever has control finds the precision it has set, or that of its caller
RECURSIVE View(_)
View(s) == IF s = << >> THEN user ELSE IF s[Len(s)].in THEN s[Len(s)].work ELSE View(SubSeq(s, 1, Len(s) - 1))
Own == prec = View(stack)
\* broken designs: nothing is restored when an exception passes; the default precision is restored; the precision is saved in decimal digits
NoRestore(f, p) == p
Default(p) == 53
Digits(p) == (((p * 3) \div 10) * 10) \div 3
=============================================================================
