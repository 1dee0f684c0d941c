------------------------------- MODULE PipeMC -------------------------------
(* A command writes to two pipes of limited capacity, chunk by chunk, closes *)
(* them, and ends; the collector takes what is there from whichever pipe has *)
(* something, or waits if neither has; it goes on until both are closed and  *)
(* empty, and then waits for the end of the command.                         *)
(* The writes are what is observable of the command: a sequence of <<pipe,   *)
(* bytes>> and <<pipe, 0>> for a close.                                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Capacity, MaxWrites, MaxChunk, Codes

VARIABLES todo, written, pipe, open, alive, code, got, waiting
vars == <<todo, written, pipe, open, alive, code, got, waiting>>
P == {"out", "err"}
(* the bytes are numbered, so that a lost, doubled or misplaced one shows *)
Scripts == UNION {[1..n -> P \X (0..MaxChunk)] : n \in 0..MaxWrites}
Init ==
  /\ todo \in Scripts /\ code \in Codes
  /\ written = [p \in P |-> 0] /\ pipe = [p \in P |-> <<>>] /\ open = [p \in P |-> TRUE]
  /\ alive = TRUE /\ got = [p \in P |-> <<>>] /\ waiting = TRUE

(* the command: writes as much as fits, and is blocked while nothing does *)
Room(p) == Capacity - Len(pipe[p])
Min(a, b) == IF a < b THEN a ELSE b
Write ==
  /\ alive /\ todo # <<>>
  /\ LET p == todo[1][1]  n == todo[1][2] IN
     IF n = 0 THEN /\ open' = [open EXCEPT ![p] = FALSE] /\ todo' = Tail(todo) /\ UNCHANGED <<written, pipe>>
     ELSE IF ~open[p] THEN todo' = Tail(todo) /\ UNCHANGED <<written, pipe, open>>      \* the write fails
     ELSE \E m \in 1..Min(n, Room(p)) :
            /\ pipe' = [pipe EXCEPT ![p] = @ \o [i \in 1..m |-> written[p] + i]]
            /\ written' = [written EXCEPT ![p] = @ + m]
            /\ todo' = IF m = n THEN Tail(todo) ELSE <<<<p, n - m>>>> \o Tail(todo)
            /\ UNCHANGED open
  /\ UNCHANGED <<alive, code, got, waiting>>
(* it ends when it is done; a signal may end it earlier *)
Exit == /\ alive /\ (todo = <<>> \/ code = 9) /\ alive' = FALSE /\ open' = [p \in P |-> FALSE] /\ todo' = <<>>
        /\ UNCHANGED <<written, pipe, code, got, waiting>>
(* the collector: any amount of what is there *)
Take(p) == /\ waiting /\ pipe[p] # <<>>
           /\ \E m \in 1..Len(pipe[p]) :
                /\ got' = [got EXCEPT ![p] = @ \o SubSeq(pipe[p], 1, m)]
                /\ pipe' = [pipe EXCEPT ![p] = SubSeq(@, m + 1, Len(@))]
           /\ UNCHANGED <<todo, written, open, alive, code, waiting>>
Closed == \A p \in P : pipe[p] = <<>> /\ ~open[p]
Finish == /\ waiting /\ Closed /\ ~alive /\ waiting' = FALSE /\ UNCHANGED <<todo, written, pipe, open, alive, code, got>>
Next == Write \/ Exit \/ (\E p \in P : Take(p)) \/ Finish
Fairness == WF_vars(Write) /\ WF_vars(Exit) /\ WF_vars(\E p \in P : Take(p)) /\ WF_vars(Finish)
Spec == Init /\ [][Next]_vars /\ Fairness

InOrder == \A p \in P : \A i \in 1..Len(got[p]) : got[p][i] = i
Complete == ~waiting => \A p \in P : Len(got[p]) = written[p]
NothingLost == \A p \in P : Len(got[p]) + Len(pipe[p]) = written[p]
Ends == <>(~waiting)
NoDeadlock == ENABLED Next \/ ~waiting
=============================================================================
