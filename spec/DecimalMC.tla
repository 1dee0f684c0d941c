------------------------------ MODULE DecimalMC ------------------------------
(* The arithmetic agrees with the one of TLA+ where that reaches, and obeys  *)
(* its laws where it does not.                                               *)
EXTENDS Decimal
Small == {0, 1, 2, 9, 99, 9999, 10000, 10001, 12345, 19999, 99990000 \div 10000}
Ints == Small \cup {-x : x \in Small}
Of(n) == ReadInteger(Dec(n)).v
Big == {<<48>>, <<49>>, <<45, 49>>, B("9223372036854775807"), B("-9223372036854775808"), B("99999999"), B("100000000"), B("123456789012345678901234567890")}
Reals == {B("1.5"), B("-1.5e3"), B("0.0001"), B("1e-5"), B("1e300"), B("-123.456e-7"), B("7.629394531250000e-06"), B("1e-300"), B("0.00"), B("15e-1"), B("+1.50")}
VARIABLES int, x, y
Init == (int = TRUE /\ x \in Ints /\ y \in Ints) \/ (int = FALSE /\ x \in Big \cup Reals /\ y \in Big \cup Reals)
Next == UNCHANGED <<int, x, y>>
Spec == Init /\ [][Next]_<<int, x, y>>
IsInt == int
Agrees == IsInt => /\ Add(Of(x), Of(y)) = Of(x + y)
                   /\ Sub(Of(x), Of(y)) = Of(x - y)
                   /\ (x < 30000 /\ y < 30000 => Mul(Of(x), Of(y)) = Of(x * y))
V(t) == ReadReal(t).v
Same(a, b) == Sub(a, b).m = <<>> 
Laws == ~IsInt => LET a == V(x)  b == V(y) IN
  /\ ReadReal(x).ok
  /\ Same(Add(a, b), Add(b, a)) /\ Same(Mul(a, b), Mul(b, a)) /\ Same(Sub(Add(a, b), b), a)
  /\ Same(Mul(a, Add(a, b)), Add(Mul(a, a), Mul(a, b)))
  /\ (LeqAbs(a, b) \/ LeqAbs(b, a)) /\ (LeqAbs(a, b) /\ LeqAbs(b, a) <=> Same(Abs(a), Abs(b)))
  /\ Same(a, b) <=> (a.neg = b.neg /\ Same(Abs(a), Abs(b)))
Written == Same(V(B("1.5")), V(B("15e-1"))) /\ Same(V(B("1.5")), V(B("+1.50"))) /\ Same(Mul(V(B("1e-5")), V(B("1e300"))), V(B("1e295")))
           /\ LessAbs(V(B("0.0000099")), V(B("1e-5"))) /\ ~LessAbs(V(B("1e-5")), V(B("0.00001")))
           /\ ~ReadReal(B("1.2.3")).ok /\ ~ReadReal(B("nan")).ok /\ ~ReadReal(<<>>).ok /\ ~ReadReal(B("1e")).ok /\ ~ReadInteger(B("1.0")).ok /\ ~ReadReal(B("-")).ok
==============================================================================
