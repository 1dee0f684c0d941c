---------------------------- MODULE NumberTextMC ----------------------------
(* All short digit strings with several exponents, growing digit by digit,   *)
(* written with few digits: the text is the number rounded to that many.     *)
EXTENDS NumberText
CONSTANTS Long, Places
Figs == {0, 1, 4, 5, 9}
VARIABLES neg, d, e
vars == <<neg, d, e>>
Init == neg \in BOOLEAN /\ d \in {<<f>> : f \in Figs} /\ e \in {-9, -5, -4, -3, -1, 0, 1, 2, 3, 4, 9, 12, 100}
Next == Len(d) < Long /\ \E f \in Figs : d' = Append(d, f) /\ UNCHANGED <<neg, e>>
Spec == Init /\ [][Next]_vars
Digits_ == DigitNumber(neg, d, e)
(* the exact value, as a text *)
Exact == (IF neg THEN <<HYPHEN>> ELSE <<>>) \o <<48, DOT>> \o Chars(d) \o <<101>> \o Dec(e)
Text_ == General(Digits_, Places)
Val(t) == ReadReal(t).v
Reads == DigitsOf(Exact) = Digits_
IsNumber == ReadReal(Text_).ok
(* not more than half of the last place away, and just that only if the last digit is even *)
HalfUnit == IF Digits_.d = <<>> THEN Zero ELSE Val(B("5e") \o Dec(Digits_.e - Places - 1))
Near_ == LET diff == Abs(Sub(Val(Text_), Val(Exact))) IN
  /\ LeqAbs(diff, HalfUnit)
  /\ (diff # Zero /\ CmpAbs(diff, HalfUnit) = 0) => LET r == DigitsOf(Text_) IN (IF Len(r.d) < Places THEN 0 ELSE Last1(r.d)) % 2 = 0
Few == Len(Digits_.d) <= Places => CmpAbs(Val(Text_), Val(Exact)) = 0
SameAgain == General(DigitsOf(Text_), Places) = Text_
SignKept == (Text_[1] = HYPHEN) = neg
Short_ == Len(DigitsOf(Text_).d) <= Places /\ Len(Text_) <= Places + 6
WholeRight == e >= Len(d) => LET t == Whole(Digits_) IN ReadInteger(t).ok /\ Sub(ReadInteger(t).v, Val(Exact)).m = <<>> /\ (Digits_.d # <<>> => Signed(t)[1] # 48)
=============================================================================
