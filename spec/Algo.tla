--------------------------------- MODULE Algo ---------------------------------
(***************************************************************************)
(* Meaning of the algorithms fixif prints for a realization.               *)
(*                                                                         *)
(* A line is [res, terms]: res and the variables of the terms are tokens   *)
(* [s, t], the printed word and the printed time (k + t), NoTime if there  *)
(* is none; terms is a sequence of [c, v].                                 *)
(*   Timed: every word denotes a signal; s(k+t) is its value at that time. *)
(*     The words printed without time are temporaries.                     *)
(*   Static: every word is a cell; the cells of the states survive from a  *)
(*     step to the next.  When P is not upper triangular the new states    *)
(*     are computed in the cells with suffix p, and swapped at the end.    *)
(***************************************************************************)
EXTENDS SIF, Names
NoTime == 99
Tok(s, t) == [s |-> s, t |-> t]
Pnut(z) == \E i, j \in 1..n_(z) : j < i /\ z.PP.e[i][j] # 0

\* names of a realization: sur = [t, x], <<>> or one surname per variable
NamesOf(z, sur) == [t |-> NameList("t", l_(z), sur.t), x |-> NameList("x", n_(z), sur.x),
                    u |-> NameList("u", q_(z), << >>), y |-> NameList("y", p_(z), << >>)]
WordsOf(vs, ws) == {Base(vs[i], ws) : i \in 1..Len(vs)}

Upd(f, k, v) == (k :> v) @@ f
Terms(ts, val(_)) == FoldLeft(LAMBDA a, t : (a + Mul(t.c, val(t.v))) % P, 0, ts)
Bad == P + 1      \* value of an undefined variable: outside the field, kept by Sum
Sum(ts, val(_)) == IF \E i \in 1..Len(ts) : val(ts[i].v) = Bad THEN Bad ELSE Terms(ts, val)

(***************************************************************************)
(* Timed execution on the columns of U                                     *)
(***************************************************************************)
TimedRun(z, nm, ws, lines, U) ==
  LET xw == WordsOf(nm.x, ws)
      cell(s) == IF Pnut(z) /\ \E w \in xw : s = w \o "p" THEN CHOOSE w \in xw : s = w \o "p" ELSE s
      env0 == FoldLeft(LAMBDA f, i : LET d == Delay(nm.x[i], 0, ws) IN IF d >= 0 THEN Upd(f, <<Base(nm.x[i], ws), d>>, 0) ELSE f,
                       [a \in {} |-> 0], Idx(n_(z)))
      get(s, k, v) == IF v.t = NoTime THEN (IF v.s \in DOMAIN s.tmp THEN s.tmp[v.s] ELSE Bad)
                      ELSE IF k + v.t < 0 THEN 0
                      ELSE IF <<v.s, k + v.t>> \in DOMAIN s.env THEN s.env[<<v.s, k + v.t>>] ELSE Bad
      put(s, k, r, x) ==
        IF r.t # NoTime THEN [s EXCEPT !.env = Upd(@, <<cell(r.s), k + r.t>>, x)]
        ELSE LET own == {i \in 1..l_(z) : HasSur(nm.t[i]) /\ Base(nm.t[i], ws) = r.s}
                 e == IF own = {} THEN s.env ELSE Upd(s.env, <<r.s, k + Delay(nm.t[CHOOSE i \in own : TRUE], 1, ws)>>, x)
             IN [env |-> e, tmp |-> Upd(s.tmp, r.s, x), y |-> s.y]
      step(s, k) ==   \* k = 0, 1, ...
        LET s0 == [s EXCEPT !.env = FoldLeft(LAMBDA f, j : Upd(f, <<Base(nm.u[j], ws), k>>, U.e[j][k + 1]), @, Idx(q_(z))), !.tmp = [a \in {} |-> 0]]
            s1 == FoldLeft(LAMBDA w, ln : put(w, k, ln.res, Sum(ln.terms, LAMBDA v : get(w, k, v))), s0, lines)
        IN [s1 EXCEPT !.y = Append(@, [i \in 1..p_(z) |-> get(s1, k, Tok(Base(nm.y[i], ws), 0))])]
      r == FoldLeft(LAMBDA s, k : step(s, k - 1), [env |-> env0, tmp |-> [a \in {} |-> 0], y |-> << >>], Idx(U.c))
  IN Mk(p_(z), U.c, LAMBDA i, j : r.y[j][i])

(***************************************************************************)
(* Static execution.  late: the outputs read the states of the beginning   *)
(* of the step (what the lines would mean if the outputs came first).      *)
(***************************************************************************)
StaticRun(z, nm, ws, lines, U, late) ==
  LET xw == [i \in 1..n_(z) |-> Base(nm.x[i], ws)]
      yw == WordsOf(nm.y, ws)
      get(e, v) == IF v.t = NoTime /\ v.s \in DOMAIN e THEN e[v.s] ELSE Bad
      old(e, e0, v) == IF \E i \in 1..n_(z) : xw[i] = v.s THEN get(e0, v) ELSE get(e, v)
      step(s, k) ==
        LET e0 == FoldLeft(LAMBDA f, j : Upd(f, Base(nm.u[j], ws), U.e[j][k]), s.e, Idx(q_(z)))
            e1 == FoldLeft(LAMBDA e, ln : Upd(e, ln.res.s, Sum(ln.terms, LAMBDA v : IF late /\ ln.res.s \in yw THEN old(e, e0, v) ELSE get(e, v))), e0, lines)
            yk == [i \in 1..p_(z) |-> get(e1, Tok(Base(nm.y[i], ws), NoTime))]
            e2 == [i \in 1..n_(z) |-> get(e1, Tok(IF Pnut(z) THEN xw[i] \o "p" ELSE xw[i], NoTime))]
        IN [e |-> FoldLeft(LAMBDA f, i : Upd(f, xw[i], e2[i]), [a \in {} |-> 0], Idx(n_(z))), y |-> Append(s.y, yk)]
      r == FoldLeft(step, [e |-> FoldLeft(LAMBDA f, i : Upd(f, xw[i], 0), [a \in {} |-> 0], Idx(n_(z))), y |-> << >>], Idx(U.c))
  IN Mk(p_(z), U.c, LAMBDA i, j : r.y[j][i])

(***************************************************************************)
(* Reference printer (the design): one line per row of Zcomp               *)
(***************************************************************************)
Row(z, words, i, res) == [res |-> res, terms |-> SelectSeq([j \in 1..Len(words) |-> [c |-> ZComp(z).e[i][j], v |-> words[j]]], LAMBDA t : t.c # 0)]
Lines(z, nm, timed) ==
  LET tk(v, d) == Tok(Base(v, FALSE), IF timed THEN d ELSE NoTime)
      words == [i \in 1..l_(z) |-> tk(nm.t[i], 1)] \o [i \in 1..n_(z) |-> tk(nm.x[i], 0)] \o [i \in 1..q_(z) |-> tk(nm.u[i], 0)]
      res == [i \in 1..l_(z) |-> tk(nm.t[i], 1)]
             \o [i \in 1..n_(z) |-> IF Pnut(z) THEN Tok(Base(nm.x[i], FALSE) \o "p", IF timed THEN 1 ELSE NoTime) ELSE tk(nm.x[i], 1)]
             \o [i \in 1..p_(z) |-> tk(nm.y[i], 0)]
  IN [i \in 1..Len(res) |-> Row(z, words, i, res[i])]
OutputsFirst(z, ls) == SubSeq(ls, 1, l_(z)) \o SubSeq(ls, l_(z) + n_(z) + 1, Len(ls)) \o SubSeq(ls, l_(z) + 1, l_(z) + n_(z))
=============================================================================
