---------------------------- MODULE RegressionGen ----------------------------
(* All small pairs of a baseline and a test, as numbers of the measurements  *)
(* in an alphabet, and all short command lines, for the conformance runs.    *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils
N == atoi(IOEnv.LETTERS)
Lists(k, n) == UNION {[1..m -> 1..k] : m \in 0..n}
Cases == IF IOEnv.WHAT = "pairs"
         THEN {[b |-> p[1], t |-> p[2]] : p \in Lists(N, atoi(IOEnv.BASE)) \X Lists(N, atoi(IOEnv.TEST))}
         ELSE {[a |-> p] : p \in Lists(N, atoi(IOEnv.BASE))}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
