--------------------------- MODULE ExtensionTrace ---------------------------
(* The events of runs of the real code.                                      *)
EXTENDS Extension, SequencesExt, Observed

TheOp(ev) == IF ev.e = "call" THEN [e |-> "call", op |-> Ob.ops[ev.k + 1]] ELSE ev
Step(x, ev) == LET e == TheOp(ev) IN IF ~x.ok THEN x ELSE IF Can(x.s, e) THEN [ok |-> TRUE, s |-> After(x.s, e), n |-> x.n + 1] ELSE [x EXCEPT !.ok = FALSE]
Final == FoldLeft(Step, [ok |-> TRUE, s |-> Started(Ob.base, Ob.tol, Ob.rec), n |-> 0], Ob.evs)

Ended == Answered => Ob.sig = 0 /\ Ob.code = 0
EventsRight == Answered => Final.ok
CountRight == (Answered /\ Final.ok) => ResultRight(Final.s, Ob.res)
(* all measurements are made, up to the one in which a visitor throws *)
AllMade == (Answered /\ Final.ok) => Final.s.thrown \/ Ob.calls = Len(Ob.ops)
=============================================================================
