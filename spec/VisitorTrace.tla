---------------------------- MODULE VisitorTrace ----------------------------
(* Observed visits (P21).  Handlers are numbered as in the driver.           *)
EXTENDS Visitor, Observed
Order == <<"Measurement", "MeasurementFile", "DataMeasurement", "TextData", "PlainText", "StringText",
           "NumericData", "IntegerNumeric", "FloatNumeric", "DoubleNumeric", "BooleanNumeric">>
Handled(mask) == {Order[k] : k \in {j \in 1..Len(Order) : (mask \div (2^(j - 1))) % 2 = 1}}
Called == [k \in 1..Len(Ob.calls) |-> Order[Ob.calls[k] + 1]]
Called2 == [k \in 1..Len(Ob.again) |-> Order[Ob.again[k] + 1]]
(* what the visitor inherits: nothing, or the handlers of the visitors of    *)
(* the framework                                                             *)
Inherited == CASE Ob.base = "visitor" -> {}
               [] Ob.base = "difference" -> {"Measurement", "PlainText"}
               [] Ob.base = "compare" -> {"Measurement", "NumericData"}
Own == Handled(Ob.mask)
Expected == Calls(Ob.type, Own \cup Inherited)
ByOwn == Expected # <<>> /\ Expected[1] \in Own
(* the effects of the inherited handlers: what the difference wrote (1 the   *)
(* lines, 2 both measurements); whether equal contents and nearly equal ones *)
(* compared equal                                                            *)
Effect == IF ByOwn \/ Expected = <<>> THEN <<0, 0>>
          ELSE CASE Expected[1] = "PlainText" -> <<1, 1>>
                 [] Expected[1] = "NumericData" -> <<1, 1>>
                 [] Expected[1] = "Measurement" -> IF Ob.base = "difference" THEN <<2, 2>>
                                                   ELSE IF Ob.type = "MeasurementFile" THEN <<0, 0>> ELSE <<1, 0>>
Right == Answered => /\ Called = (IF ByOwn THEN Expected ELSE <<>>) /\ Called2 = Called
                     /\ Ob.eff = Effect
Unchanged == Answered => Ob.same = 1
=============================================================================
