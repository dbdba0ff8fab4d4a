-------------------------------- MODULE GenWl --------------------------------
(***************************************************************************)
(* Random implicit forms (exact: nilpotent, or with poles), bounds on the  *)
(* inputs and on the output errors (also bounds met with equality: "edge").*)
(***************************************************************************)
EXTENDS RandLib, Integers
IM(r, c, pool, keep(_, _)) == [r |-> r, c |-> c, e |-> TLCEval([i \in 1..r |-> [j \in 1..c |-> IF keep(i, j) THEN RndSeq(pool) ELSE 0]])]
Keep2(i, j) == TRUE
Big3 == <<1, -1, 2, -2, 3, 4, -4, 5, 0>>
Form(r) ==
  LET l == TLCEval(RndSeq(<<0, 1, 1, 2, 3>>)) n == TLCEval(RndSeq(<<1, 1, 2, 2, 3>>)) p == TLCEval(RndSeq(<<1, 1, 1, 2>>)) q == TLCEval(RndSeq(<<1, 1, 2>>))
      iir == TLCEval(Rnd(1..3) = 1) h == n \div 2 sm == <<1, -1, 2, -2, 3, 0, 0>> IN
  [J |-> [r |-> l, c |-> l, e |-> TLCEval([i \in 1..l |-> [j \in 1..l |-> IF i = j THEN 4 ELSE IF j < i THEN RndSeq(<<0, 0, 2, -2, 4>>) ELSE 0]])],
   K |-> IM(n, l, IF iir THEN sm ELSE Big3, LAMBDA i, j : iir \/ i > h), M |-> IM(l, n, IF iir THEN sm ELSE Big3, LAMBDA i, j : iir \/ j <= h),
   PP |-> IF iir THEN [r |-> n, c |-> n, e |-> TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RndSeq(<<4, -4, 6, -6, 8, 2, 0>>) ELSE IF j = i + 1 THEN RndSeq(<<0, 1, -1, 2>>) ELSE 0]])]
          ELSE IM(n, n, Big3, LAMBDA i, j : j < i),
   N |-> IM(l, q, Big3, Keep2), Q |-> IM(n, q, Big3, Keep2), L |-> IM(p, l, Big3, Keep2), R |-> IM(p, n, Big3, Keep2), S |-> IM(p, q, Big3, Keep2),
   \* scales (powers of 2) of each block
   sJ |-> 2, sA |-> IF iir THEN 4 ELSE 2, sK |-> IF iir THEN 3 ELSE RndSeq(<<0, 1, 2>>), sB |-> RndSeq(<<0, 1, 2, 6>>), sC |-> RndSeq(<<0, 1, 2, 7>>), sS |-> RndSeq(<<0, 2, 4>>)]
Draw(r) ==
  LET z == TLCEval(Form(r)) q == z.S.c p == z.S.r IN
  [z |-> z, u |-> TLCEval([i \in 1..q |-> <<RndSeq(<<1, 1, 3, 5, 100>>), RndSeq(<<0, 0, 1, 5>>)>>]),
   eps |-> TLCEval([k \in 1..3 |-> [i \in 1..p |-> <<RndSeq(<<1, 1, 3, 5, 7>>), RndSeq(<<-2, 0, 2, 5, 8, 13, 20, 30>>)>>]]),
   edge |-> TLCEval([k \in 1..2 |-> <<Rnd(1..p), RndSeq(<<1, 3, 4, 6, 9, 14>>), Rnd(0..1)>>]), wmax |-> RndSeq(<<16, 24, 64>>),
   \* the inputs are scaled, and moved by a tiny relative amount (so that a bound may be just above or below a power of 2)
   near |-> RndSeq(<<0, 0, 1, -1>>), sc |-> RndSeq(<<0, 0, 0, 1, -1>>)]
Init == GInit(Draw)
Spec == Init /\ [][GNext]_<<run, drawn>>
=============================================================================
