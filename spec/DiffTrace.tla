------------------------------ MODULE DiffTrace ------------------------------
(* Observed differences (P17).                                               *)
EXTENDS Diff, Observed
IsScript == Answered => ReadScript(Ob.d).ok
Right == Answered => IsDiff(Ob.s, Ob.t, Ob.d)
==============================================================================
