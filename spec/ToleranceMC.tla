----------------------------- MODULE ToleranceMC -----------------------------
(* The relation is reflexive and symmetric, holds more often with a larger   *)
(* tolerance, and the answer with slack never contradicts it.                *)
EXTENDS Tolerance
List == <<<<48>>, <<49>>, B("-1"), B("1.5"), B("-1.5"), B("2"), B("1000000"), B("1000001"), B("1e-8"), B("1e-7"), B("-1e-8"), B("2e-7"), B("1e38"), B("-1e38"),
          B("3.4e38"), B("1e39"), B("1e308"), B("-1e308"), B("9223372036854775807"), B("-9223372036854775808"), B("9223372036854775808"), B("nan"), B("inf"), <<>>, B("x"), B(" 1"), B("1 "), B("1.0"), B("+1"), B("01")>>
Tols == {<<48>>, B("0.5"), B("-0.5"), B("1"), B("1e-3"), DefaultTolerance, B("2")}
Types == {TINT, TFLOAT, TDOUBLE, TBOOL}
VARIABLES type, u, v, j
Init == type \in Types /\ (\E i \in 1..Len(List) : u = List[i] /\ j = i) /\ v = u
Next == j < Len(List) /\ j' = j + 1 /\ v' = List[j + 1] /\ UNCHANGED <<type, u>>
Spec == Init /\ [][Next]_<<type, u, v, j>>
M(a, b, e, x) == NumberMatch(type, a, b, e, x)
Symmetric == \A e \in Tols, x \in {TRUE, FALSE} : M(u, v, e, x) = M(v, u, e, x)
Reflexive == \A e \in Tols, x \in {TRUE, FALSE} : M(u, u, e, x) = "yes"
NotTwice == \A e \in Tols : M(u, v, e, TRUE) \in {"yes", "no"} /\ M(u, v, e, FALSE) \in {M(u, v, e, TRUE), "any"}
ZeroIsText == M(u, v, <<48>>, FALSE) = (IF u = v THEN "yes" ELSE "no")
Sign == M(u, v, B("0.5"), FALSE) = M(u, v, B("-0.5"), FALSE)
Wider == /\ (M(u, v, DefaultTolerance, TRUE) = "yes" => M(u, v, B("1e-3"), TRUE) = "yes")
         /\ (M(u, v, B("1e-3"), TRUE) = "yes" => M(u, v, B("0.5"), TRUE) = "yes")
         /\ (M(u, v, B("0.5"), TRUE) = "yes" => M(u, v, B("2"), TRUE) = "yes")
NotANumber == \A t \in {B("nan"), B("inf"), B("x"), <<>>} : (u # v /\ t \in {u, v}) => M(u, v, B("2"), TRUE) = "no"
Overflow == (type # TBOOL /\ {u, v} = {B("9223372036854775807"), B("-9223372036854775808")}) => M(u, v, <<49>>, TRUE) = "no" /\ M(u, v, B("2"), TRUE) = "yes"
==============================================================================
