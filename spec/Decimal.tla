------------------------------- MODULE Decimal -------------------------------
(* Exact arithmetic of decimal numbers of any size: the value of [neg, m, e] *)
(* is m * 10^(4e), where m is a natural number as a sequence of limbs from   *)
(* 0 to 9999, the lowest first, without zeros at the high end.               *)
EXTENDS Bytes

Limb == 10000
RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ Last1(m) # 0 THEN m ELSE Trim(Front(m))
LimbAt(m, k) == IF k <= Len(m) THEN m[k] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

CmpNat(a, b) ==       \* -1, 0, 1; both trimmed
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeftDomain(LAMBDA r, k : IF a[k] = b[k] THEN r ELSE IF a[k] < b[k] THEN -1 ELSE 1, 0, a)
AddNat(a, b) ==
  LET r == FoldLeft(LAMBDA s, k : LET v == LimbAt(a, k) + LimbAt(b, k) + s.c
                                  IN  [c |-> v \div Limb, m |-> Append(s.m, v % Limb)],
                    [c |-> 0, m |-> <<>>], [k \in 1..Longer(a, b) |-> k])
  IN  IF r.c = 0 THEN r.m ELSE Append(r.m, r.c)
SubNat(a, b) ==       \* a is not less than b
  LET r == FoldLeft(LAMBDA s, k : LET v == LimbAt(a, k) - LimbAt(b, k) - s.c
                                  IN  [c |-> IF v < 0 THEN 1 ELSE 0, m |-> Append(s.m, IF v < 0 THEN v + Limb ELSE v)],
                    [c |-> 0, m |-> <<>>], [k \in 1..Len(a) |-> k])
  IN  Trim(r.m)
MulLimb(a, d) ==
  LET r == FoldLeft(LAMBDA s, x : LET v == x * d + s.c IN [c |-> v \div Limb, m |-> Append(s.m, v % Limb)],
                    [c |-> 0, m |-> <<>>], a)
  IN  Trim(IF r.c = 0 THEN r.m ELSE Append(r.m, r.c))
Shifted(a, n) == IF a = <<>> THEN a ELSE [k \in 1..n |-> 0] \o a
MulNat(a, b) == FoldLeftDomain(LAMBDA s, k : AddNat(s, Shifted(MulLimb(a, b[k]), k - 1)), <<>>, b)

-----------------------------------------------------------------------------
Num(neg, m, e) == [neg |-> neg /\ m # <<>>, m |-> m, e |-> IF m = <<>> THEN 0 ELSE e]
Zero == Num(FALSE, <<>>, 0)
Abs(x) == [x EXCEPT !.neg = FALSE]
Neg(x) == Num(~x.neg, x.m, x.e)
Lower2(x, y) == IF x.m = <<>> THEN y.e ELSE IF y.m = <<>> THEN x.e ELSE IF x.e < y.e THEN x.e ELSE y.e
At(x, e) == IF x.m = <<>> THEN <<>> ELSE Shifted(x.m, x.e - e)
CmpAbs(x, y) == LET e == Lower2(x, y) IN CmpNat(At(x, e), At(y, e))
Add(x, y) ==
  LET e == Lower2(x, y)  a == At(x, e)  b == At(y, e) IN
    IF x.neg = y.neg THEN Num(x.neg, AddNat(a, b), e)
    ELSE IF CmpNat(a, b) >= 0 THEN Num(x.neg, SubNat(a, b), e) ELSE Num(y.neg, SubNat(b, a), e)
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Num(x.neg # y.neg, MulNat(x.m, y.m), x.e + y.e)
LeqAbs(x, y) == CmpAbs(x, y) <= 0
LessAbs(x, y) == CmpAbs(x, y) < 0

-----------------------------------------------------------------------------
(* written numbers: sign, digits with a point, exponent of ten               *)
DOT == 46  PLUS == 43  HYPHEN == 45
RECURSIVE LimbsOf(_)
LimbsOf(t) ==         \* of digits
  IF t = <<>> THEN <<>>
  ELSE LET n == IF Len(t) < 4 THEN Len(t) ELSE 4 IN
       <<NatOf(SubSeq(t, Len(t) - n + 1, Len(t)))>> \o LimbsOf(SubSeq(t, 1, Len(t) - n))
NoNumber == [ok |-> FALSE, v |-> Zero]
Signed(t) == IF t # <<>> /\ Head(t) \in {PLUS, HYPHEN} THEN Tail(t) ELSE t
ReadInteger(t) == LET u == Signed(t) IN
  IF AllDigits(u) THEN [ok |-> TRUE, v |-> Num(Head(t) = HYPHEN, Trim(LimbsOf(u)), 0)] ELSE NoNumber
ReadReal(t) ==
  LET u == Signed(t)
      k == FirstPos([j \in 1..Len(u) |-> IF u[j] = 69 THEN 101 ELSE u[j]], 101)
      mant == IF k = 0 THEN u ELSE SubSeq(u, 1, k - 1)
      ex == IF k = 0 THEN <<48>> ELSE Drop(u, k)
      p == Split(mant, DOT)
      digits == IF Len(p) = 2 THEN p[1] \o p[2] ELSE mant
      eu == Signed(ex)
      en == (IF ex # <<>> /\ Head(ex) = HYPHEN THEN -1 ELSE 1) * NatOf(eu) - (IF Len(p) = 2 THEN Len(p[2]) ELSE 0)
      \* tenfold until the exponent is a multiple of four
      r == en % 4
  IN  IF Len(p) > 2 \/ ~AllDigits(digits) \/ ~AllDigits(eu) \/ Len(eu) > 6 THEN NoNumber
      ELSE [ok |-> TRUE, v |-> Num(t[1] = HYPHEN, Trim(LimbsOf(digits \o Repeat(48, r))), (en - r) \div 4)]
=============================================================================
