------------------------------- MODULE DiffGen -------------------------------
(* pairs of texts for the real code: all small sequences of lines            *)
EXTENDS Bytes, Json, IOUtils
VARIABLE x
Big == IOEnv.SIZE = "thorough"
Alph == {97, 98, 0}                     \* 0: an empty line
Seqs(A, n) == UNION {[1..k -> A] : k \in 1..n}
Three == Seqs(Alph, IF Big THEN 4 ELSE 3)
Two == Seqs({97, 98}, IF Big THEN 6 ELSE 5)
Pairs == (Three \X Three) \cup (Two \X Two)
Init == x = 0 /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[a |-> p[1], b |-> p[2]] : p \in Pairs}))
Spec == Init /\ [][FALSE]_x
==============================================================================
