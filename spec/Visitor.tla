------------------------------- MODULE Visitor -------------------------------
(* A visitor redefines some of the handlers.  A visit begins at the type of  *)
(* the measurement and is passed on to the next more general type until a    *)
(* redefined handler is met, or there is no more general type.               *)
EXTENDS Integers, Sequences, FiniteSets

Parent == [ Measurement     |-> "none",
            MeasurementFile |-> "Measurement",
            DataMeasurement |-> "Measurement",
            TextData        |-> "DataMeasurement",
            PlainText       |-> "TextData",
            StringText      |-> "TextData",
            NumericData     |-> "DataMeasurement",
            IntegerNumeric  |-> "NumericData",
            FloatNumeric    |-> "NumericData",
            DoubleNumeric   |-> "NumericData",
            BooleanNumeric  |-> "NumericData" ]
Types == DOMAIN Parent
Concrete == {t \in Types : \A u \in Types : Parent[u] # t}

RECURSIVE Calls(_, _)
Calls(type, handled) ==          \* which handlers a visit calls
  IF type = "none" THEN <<>>
  ELSE IF type \in handled THEN <<type>>
  ELSE Calls(Parent[type], handled)

RECURSIVE Line(_)
Line(type) == IF type = "none" THEN <<>> ELSE <<type>> \o Line(Parent[type])
=============================================================================
