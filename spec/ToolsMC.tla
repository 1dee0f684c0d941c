------------------------------- MODULE ToolsMC -------------------------------
(* The image compare program on all short command lines of options, values   *)
(* and files: every image is measured once, in order, under the name with    *)
(* its number, with the tolerances of the options before it.                 *)
EXTENDS Tools
CONSTANTS MaxArgs
Words == {INTENSITY, PIXELS, RADIUS, B("1"), B("0.5"), B("x"), B("a.mha"), B("-z"), B("-1")}
VARIABLES args
Init == args = <<>>
Next == Len(args) < MaxArgs /\ \E w \in Words : args' = Append(args, w)
Spec == Init /\ [][Next]_args

Ops == ImageOps(args)
Images == SelectSeq(Ops, LAMBDA o : o.k = "m")
(* which arguments are images: neither options nor values of options; up to  *)
(* the first one which ends it *)
RECURSIVE Roles(_, _)
Roles(a, k) ==
  IF k > Len(a) THEN <<>>
  ELSE IF a[k] \in {INTENSITY, PIXELS, RADIUS} THEN <<"option">> \o (IF k < Len(a) THEN <<"value">> ELSE <<>>) \o Roles(a, k + 2)
  ELSE IF a[k][1] = HYPHEN THEN <<"unknown">> \o Roles(a, k + 1)
  ELSE <<"image">> \o Roles(a, k + 1)
Role == Roles(args, 1)
Wrong_(k) == \/ Role[k] = "unknown"
             \/ (Role[k] = "option" /\ k = Len(args))
             \/ Role[k] = "value" /\ (args[k] \in {B("x"), B("a.mha"), B("-z"), INTENSITY, PIXELS, RADIUS} \/ (args[k - 1] # INTENSITY /\ args[k] \in {B("0.5"), B("-1")}))
Good == {k \in 1..Len(args) : \A j \in 1..k : ~Wrong_(j)}
ImagesMeasured ==
  LET at == SelectSeq([k \in 1..Len(args) |-> k], LAMBDA k : k \in Good /\ Role[k] = "image") IN
    /\ Len(Images) = Len(at)
    /\ \A j \in 1..Len(at) : Images[j].text = args[at[j]] /\ Images[j].name = IMAGEFILE \o Digits(j - 1) /\ Images[j].type = IMAGE
Ending == LET o == Last(Ops) IN
  IF Good = 1..Len(args) THEN o = Returns(0) ELSE o \in {Returns(1), Unclear}
(* the tolerance of an image: the last value of each option before it *)
LastOf(o, k) == LET s == {j \in 2..k : Role[j] = "value" /\ args[j - 1] = o} IN
  IF s = {} THEN <<48>> ELSE args[CHOOSE j \in s : \A i \in s : i <= j]
InForce == LET t == SelectSeq(Ops, LAMBDA o : o.k = "itol")
               at == SelectSeq([k \in 1..Len(args) |-> k], LAMBDA k : k \in Good /\ Role[k] = "image") IN
  \A j \in 1..Len(at) : /\ t[j].v.int = RealValue(LastOf(INTENSITY, at[j])).v
                        /\ t[j].v.num = NaturalValue(LastOf(PIXELS, at[j])).v
                        /\ t[j].v.rad = NaturalValue(LastOf(RADIUS, at[j])).v
=============================================================================
