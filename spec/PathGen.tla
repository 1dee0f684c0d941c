------------------------------- MODULE PathGen -------------------------------
(* The small paths of PathMC as cases for the real code.                     *)
EXTENDS Path, Json, IOUtils
T == IOEnv.SIZE = "thorough"
Strings(chars, n) == UNION {[1..k -> chars] : k \in 0..n}
Singles == Strings({47, 46, 97, 58}, IF T THEN 7 ELSE 5)
Pairs == Strings({47, 46, 97}, IF T THEN 4 ELSE 3) \X Strings({47, 46, 97}, IF T THEN 4 ELSE 3)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[p |-> c, q |-> <<>>, n |-> 1] : c \in Singles}
                                     \cup {[p |-> c[1], q |-> c[2], n |-> 2] : c \in Pairs}))
==============================================================================
