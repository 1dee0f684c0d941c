------------------------------- MODULE PathMC -------------------------------
(* All small paths: a path which grows and a second one which is appended.   *)
EXTENDS Path
CONSTANTS Chars, MaxLen, MaxOther
VARIABLES p, q
Init == p = <<>> /\ q = <<>>
Next == \/ Len(p) < MaxLen /\ (\E c \in Chars : p' = Append(p, c)) /\ q' = q
        \/ Len(q) < MaxOther /\ (\E c \in Chars : q' = Append(q, c)) /\ p' = p
Spec == Init /\ [][Next]_<<p, q>>
Laws == /\ JoinLaw(p, q) /\ SplitLaw(p) /\ AbsoluteLaw(p, q) /\ KindLaw(p, q)
        /\ ExtensionLaw(p) /\ ListLaw(p)
        /\ AssociativeLaw(p, q, <<97>>)
=============================================================================
