------------------------------ MODULE Base64Gen ------------------------------
(* The texts and byte strings of Base64MC as cases for the real code.        *)
EXTENDS Base64, SequencesExt, Json, IOUtils
Chars == {65, 103, 47, 61, 32, 33}
Octets == {0, 1, 127, 128, 255}
MaxText == IF IOEnv.SIZE = "thorough" THEN 7 ELSE 5
MaxData == IF IOEnv.SIZE = "thorough" THEN 5 ELSE 4
Texts == UNION {[1..n -> Chars] : n \in 0..MaxText}
Data == UNION {[1..n -> Octets] : n \in 0..MaxData}
Cases == IF IOEnv.WHAT = "texts" THEN Texts ELSE Data
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[v |-> c] : c \in Cases}))
==============================================================================
