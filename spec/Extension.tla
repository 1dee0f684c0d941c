------------------------------ MODULE Extension ------------------------------
(* A test which judges and reports its measurements by visitors of its own,  *)
(* and measures with objects of its own.  The events of a run are            *)
(*   call      a measurement is made: op [n, t, c, known, tolerant, text,    *)
(*             plain], its name, type and content (if it is known); text is  *)
(*             what the test's visitor writes (if plain, else anything)      *)
(*   ret       the call answers v, and w was written in it                   *)
(*   tol       the test sets the relative tolerance                          *)
(*   newC newD a visitor for comparing, for differences, is made             *)
(*   base      a visitor is told the baseline                                *)
(*   tolerance a visitor is told a tolerance,  off  that there is none       *)
(*   out       the visitor for differences gets the output of the run        *)
(*   visit     the measurement is shown to a visitor                         *)
(*   ask       the visitor says whether the two match: v                     *)
(*   del       a visitor is gone,  throw  it throws in the visit             *)
(* What may follow what is given by Can, and After is the state then.  The   *)
(* order is left open where nobody can tell the difference.                  *)
EXTENDS Integers, Sequences

Gone == [is |-> FALSE, k |-> 0, told |-> FALSE, tol |-> <<>>, out |-> FALSE, seen |-> FALSE]
Idle == [on |-> FALSE, op |-> <<>>, pair |-> <<>>, cs |-> 0, ds |-> 0, said |-> "nothing", got |-> <<>>]
Started(base, tol, rec) ==
  [rec |-> rec, base |-> base, tol |-> tol, cur |-> Idle, c |-> Gone, d |-> Gone, count |-> 0, thrown |-> FALSE]

Pairs(s, op) == ~s.rec /\ s.base # <<>> /\ Head(s.base).n = op.n /\ Head(s.base).t = op.t
Matched(s) == s.cur.pair # <<>>
IsC(s, ev) == s.c.is /\ s.c.k = ev.k
IsD(s, ev) == s.d.is /\ s.d.k = ev.k
Shown(s, ev) == LET o == s.cur.op IN ev.n = o.n /\ ev.t = o.t /\ (o.known => ev.c = o.c)
ThePair(s, ev) == LET b == s.cur.pair[1] IN ev.n = b.n /\ ev.t = b.t /\ ev.c = b.c
(* what a visitor has to be told before it sees the measurement *)
TolRight(s) == IF s.cur.op.tolerant THEN s.c.tol = <<s.tol>> ELSE s.c.tol = <<>>

Can(s, ev) ==
  CASE ev.e = "call"      -> ~s.cur.on /\ ~s.thrown
    [] ev.e = "tol"       -> ~s.cur.on /\ ~s.thrown
    [] ev.e = "newC"      -> s.cur.on /\ Matched(s) /\ s.cur.cs = 0 /\ ~s.thrown
    [] ev.e = "newD"      -> s.cur.on /\ Matched(s) /\ s.cur.ds = 0 /\ s.cur.said = "no" /\ ~s.thrown
    [] ev.e = "base"      -> (IsC(s, ev) \/ IsD(s, ev)) /\ Matched(s) /\ ThePair(s, ev)
    [] ev.e = "tolerance" -> IsC(s, ev) /\ ~s.c.seen
    [] ev.e = "off"       -> IsC(s, ev) /\ ~s.c.seen
    [] ev.e = "out"       -> IsD(s, ev) /\ ev.v = 1
    [] ev.e \in {"visit", "throw"} ->
         /\ Shown(s, ev)
         /\ \/ IsC(s, ev) /\ s.c.told /\ TolRight(s) /\ ~s.c.seen
            \/ IsD(s, ev) /\ s.d.told /\ s.d.out /\ ~s.d.seen /\ ev.c = s.cur.got[1]
    [] ev.e = "ask"       -> IsC(s, ev) /\ s.c.seen
    [] ev.e = "del"       -> \/ IsC(s, ev) /\ (s.thrown \/ s.cur.said # "nothing")
                             \/ IsD(s, ev) /\ (s.thrown \/ s.d.seen)
    [] ev.e = "ret"       ->
         /\ s.cur.on /\ ~s.thrown /\ ~s.c.is /\ ~s.d.is
         /\ IF s.rec THEN ev.v = 0 /\ ev.w # <<>>
            ELSE IF ~Matched(s) THEN ev.v # 0 /\ ev.w # <<>>
            ELSE /\ s.cur.cs = 1
                 /\ IF s.cur.said = "yes" THEN ev.v = 0 /\ ev.w = <<>> /\ s.cur.ds = 0
                    ELSE ev.v # 0 /\ s.cur.ds = 1 /\ (s.cur.op.plain => ev.w = s.cur.op.text)
    [] OTHER              -> FALSE

After(s, ev) ==
  CASE ev.e = "call"      -> [s EXCEPT !.cur = [Idle EXCEPT !.on = TRUE, !.op = ev.op, !.pair = IF Pairs(s, ev.op) THEN <<Head(s.base)>> ELSE <<>>],
                                       !.base = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] ev.e = "tol"       -> [s EXCEPT !.tol = ev.c]
    [] ev.e = "newC"      -> [s EXCEPT !.c = [Gone EXCEPT !.is = TRUE, !.k = ev.k], !.cur.cs = @ + 1]
    [] ev.e = "newD"      -> [s EXCEPT !.d = [Gone EXCEPT !.is = TRUE, !.k = ev.k], !.cur.ds = @ + 1]
    [] ev.e = "base"      -> IF IsC(s, ev) THEN [s EXCEPT !.c.told = TRUE] ELSE [s EXCEPT !.d.told = TRUE]
    [] ev.e = "tolerance" -> [s EXCEPT !.c.tol = <<ev.c>>]
    [] ev.e = "off"       -> [s EXCEPT !.c.tol = <<>>]
    [] ev.e = "out"       -> [s EXCEPT !.d.out = TRUE]
    [] ev.e = "visit"     -> IF IsC(s, ev) THEN [s EXCEPT !.c.seen = TRUE, !.cur.got = <<ev.c>>] ELSE [s EXCEPT !.d.seen = TRUE]
    [] ev.e = "throw"     -> [s EXCEPT !.thrown = TRUE]
    [] ev.e = "ask"       -> [s EXCEPT !.cur.said = IF ev.v # 0 THEN "yes" ELSE "no"]
    [] ev.e = "del"       -> IF IsC(s, ev) THEN [s EXCEPT !.c = Gone] ELSE [s EXCEPT !.d = Gone]
    [] ev.e = "ret"       -> [s EXCEPT !.cur = Idle, !.count = IF ~s.rec /\ ev.v # 0 THEN @ + 1 ELSE @]

(* what the run gives, if the test returns what is expected *)
ResultRight(s, v) == IF s.thrown THEN v # 0 ELSE ~s.cur.on /\ v = s.count
=============================================================================
