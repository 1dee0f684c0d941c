------------------------------ MODULE VisitorMC ------------------------------
(* The visit step by step, for all sets of handlers and all types.           *)
EXTENDS Visitor
VARIABLES type, handled, at, called, done
vars == <<type, handled, at, called, done>>
Init == /\ type \in Concrete /\ handled \in SUBSET Types
        /\ at = type /\ called = <<>> /\ done = FALSE
Handle == ~done /\ at \in handled /\ called' = Append(called, at) /\ done' = TRUE /\ UNCHANGED <<type, handled, at>>
PassOn == /\ ~done /\ at \notin handled /\ Parent[at] # "none"
          /\ at' = Parent[at] /\ UNCHANGED <<type, handled, called, done>>
Ignore == ~done /\ at \notin handled /\ Parent[at] = "none" /\ done' = TRUE /\ UNCHANGED <<type, handled, at, called>>
Next == Handle \/ PassOn \/ Ignore
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtMostOnce == Len(called) <= 1
Agrees == done => called = Calls(type, handled)
(* no redefined handler is nearer than the one called; none is passed over   *)
Nearest == done => LET l == Line(type) IN
             IF called = <<>> THEN \A k \in 1..Len(l) : l[k] \notin handled
             ELSE \E k \in 1..Len(l) : l[k] = called[1] /\ l[k] \in handled /\ \A j \in 1..(k - 1) : l[j] \notin handled
Ends == <>done
=============================================================================
