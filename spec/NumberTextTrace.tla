--------------------------- MODULE NumberTextTrace ---------------------------
(* Numbers which were recorded: the exact value, and what was written.       *)
EXTENDS NumberText, Observed
NumbersRight == Answered => \A k \in 1..Len(Ob.ns) : LET n == Ob.ns[k] IN TextOf(Ob.type, n.exact) = n.text
(* the texts the other checks take for the numbers are the same *)
OracleRight == Seen => \A k \in 1..Len(Ob.ns) : LET n == Ob.ns[k] IN TextOf(Ob.type, n.exact) = n.py
=============================================================================
