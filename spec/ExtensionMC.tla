----------------------------- MODULE ExtensionMC -----------------------------
(* All runs with a few measurements against all small baselines: whatever    *)
(* order the events have, as long as each of them may happen.                *)
EXTENDS Extension
CONSTANTS MaxOps, MaxBase

Names == {1, 2}
Entries == [n : Names, t : {1}, c : {1, 2}]
OpsAll == {[n |-> n, t |-> 1, c |-> c, known |-> TRUE, tolerant |-> tl, text |-> <<7>>, plain |-> TRUE] : n \in Names, c \in {1}, tl \in BOOLEAN}
Bases == UNION {[1..k -> Entries] : k \in 0..MaxBase}

VARIABLES s, left, last, all, judged
vars == <<s, left, last, all, judged>>
Init == /\ \E b \in Bases, r \in BOOLEAN : s = Started(b, 5, r) /\ all = b
        /\ left = MaxOps /\ last = [c |-> 0, d |-> 0] /\ judged = <<>>
Ev(e, k) == [e |-> e, k |-> k, n |-> 0, t |-> 0, c |-> 0, v |-> 0, w |-> <<>>]
Shows(e, k) == [Ev(e, k) EXCEPT !.n = s.cur.op.n, !.t = s.cur.op.t, !.c = s.cur.op.c]
Told(k) == [Ev("base", k) EXCEPT !.n = s.cur.pair[1].n, !.t = s.cur.pair[1].t, !.c = s.cur.pair[1].c]
Events ==
  (IF left > 0 /\ ~s.cur.on THEN {[e |-> "call", op |-> o] : o \in OpsAll} \cup {[Ev("tol", 0) EXCEPT !.c = 6]} ELSE {})
  \cup {Ev("newC", 1), Ev("newD", 2)}
  \cup (IF s.cur.on /\ Matched(s) THEN {Told(1), Told(2)} ELSE {})
  \cup {[Ev("tolerance", 1) EXCEPT !.c = x] : x \in {5, 6}} \cup {Ev("off", 1), [Ev("out", 2) EXCEPT !.v = 1], Ev("out", 2)}
  \cup (IF s.cur.on THEN {Shows("visit", 1), Shows("visit", 2), Shows("throw", 1), Shows("throw", 2)} ELSE {})
  \cup {[Ev("ask", 1) EXCEPT !.v = x] : x \in {0, 1}}
  \cup {Ev("del", 1), Ev("del", 2)}
  \cup {[Ev("ret", 0) EXCEPT !.v = x, !.w = y] : x \in {0, 1}, y \in {<<>>, <<7>>}}
(* a verdict is asked for once here *)
Happens(ev) ==
  /\ Can(s, ev)
  /\ ev.e = "ask" => s.cur.said = "nothing"
  /\ After(s, ev) # s
  /\ s' = After(s, ev)
  /\ left' = IF ev.e = "call" THEN left - 1 ELSE left
  /\ all' = all /\ last' = last
  /\ judged' = IF ev.e = "ret" /\ ~s.rec THEN Append(judged, [m |-> Matched(s), said |-> s.cur.said, v |-> ev.v, tolerant |-> s.cur.op.tolerant]) ELSE judged
Next == \E ev \in Events : Happens(ev)
Spec == Init /\ [][Next]_vars

Wrong == {j \in 1..Len(judged) : judged[j].v # 0}
(* nothing of a measurement is left when its call is over *)
Clean == (~s.cur.on /\ ~s.thrown) => ~s.c.is /\ ~s.d.is
(* what is counted is what the visitors said, and the unmatched measurements *)
Counts == s.count = Len(SelectSeq(judged, LAMBDA j : ~j.m \/ j.said = "no"))
Answers == \A j \in 1..Len(judged) : (judged[j].v = 0) <=> (judged[j].m /\ judged[j].said = "yes")
(* a recording asks nobody; an unmatched measurement neither *)
Nobody == (s.c.is \/ s.d.is) => ~s.rec /\ s.cur.on /\ Matched(s)
ReportsWhy == s.d.is => s.cur.said = "no"
OncePerPair == s.cur.cs <= 1 /\ s.cur.ds <= 1
Prepared == s.c.seen => s.c.told /\ TolRight(s)
(* unless a visitor throws, every call can come to its end *)
NotStuck == (s.cur.on /\ ~s.thrown) => \E ev \in Events : Can(s, ev) /\ After(s, ev) # s
=============================================================================
