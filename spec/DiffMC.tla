------------------------------- MODULE DiffMC -------------------------------
(* For all small texts: there is a script which is accepted, what it says is *)
(* what was written, and spoiled scripts are not accepted.                   *)
EXTENDS Diff
CONSTANT N
Chars == {97, 98, NL}
Texts == UNION {[1..n -> Chars] : n \in 0..N}
VARIABLES s, t
Init == s \in Texts /\ t \in Texts
Next == UNCHANGED <<s, t>>
Spec == Init /\ [][Next]_<<s, t>>

Sc == Script(Lines(s), Lines(t))
W  == WrittenScript(Sc)
Accepted == IsDiff(s, t, W)
ReadBack == ReadScript(W) = [ok |-> TRUE, script |-> Sc]
(* the other direction costs as much *)
Symmetric == LeastCost(Lines(s), Lines(t)) = LeastCost(Lines(t), Lines(s))
(* any missing byte is noticed *)
Spoiled == \A k \in 1..Len(W) : ~IsDiff(s, t, SubSeq(W, 1, k - 1) \o Drop(W, k))
OnlyThisPair == \A u \in {<<>>, <<97>>, <<NL>>} : IsDiff(s, u, W) => u = t
=============================================================================
