--------------------------- MODULE InterruptedTrace ---------------------------
(* Recordings for which there was too little room: success was reported only *)
(* if the whole document is there, and what is there is no baseline else.    *)
EXTENDS Regression, Observed
Complete(o) ==
  LET d == Read(o.out) IN
    Usable(d) /\ Measurements(d) = [j \in 1..Len(o.ms) |-> Recorded(o.ms[j])]
SuccessIsComplete == Answered => (Ob.ok = 1 => Complete(Ob))
LeftoverIsNoBaseline == Answered => (Usable(Read(Ob.out)) => Complete(Ob))
EnoughRoom == Answered => (Ob.room = 1 => Ob.ok = 1)
===============================================================================
