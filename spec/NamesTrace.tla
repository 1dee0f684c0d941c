----------------------------- MODULE NamesTrace -----------------------------
(* Names which the real code has generated: in a run, in the next one with   *)
(* the same arguments, and in runs with others.                              *)
EXTENDS Names, Observed
RunsRight == Answered => NamesRight(Ob.reqs, Ob.names, Ob.program) /\ Ob.again = Ob.names
(* arguments which are all different, apart from that one: they are looked at *)
Depends == Answered => (Len(Ob.others) > 3 => \E k \in 1..Len(Ob.others) : Ob.others[k] # Ob.names)
=============================================================================
