----------------------------- MODULE NumberText -----------------------------
(* How a number is written in a measurement: an integer with all its digits, *)
(* a floating point number rounded to a number of significant digits (half   *)
(* to even), without zeros at the end, with an exponent of ten if it is less *)
(* than -4 or not less than the number of digits.                            *)
(* A number is [neg, d, e]: the value 0.d1d2d3... * 10^e, d a sequence of    *)
(* digits from 0 to 9, d1 not zero; the zero has no digits.                  *)
EXTENDS Tolerance

RECURSIVE NoZerosAtEnd(_)
NoZerosAtEnd(d) == IF d = <<>> \/ Last1(d) # 0 THEN d ELSE NoZerosAtEnd(Front(d))
DigitNumber(neg, d, e) ==
  LET first == FoldLeftDomain(LAMBDA a, k : IF a = 0 /\ d[k] # 0 THEN k ELSE a, 0, d)
  IN  IF first = 0 THEN [neg |-> neg, d |-> <<>>, e |-> 0]
      ELSE [neg |-> neg, d |-> NoZerosAtEnd(Drop(d, first - 1)), e |-> e - (first - 1)]
(* the number which a text is: sign, digits with a point, exponent           *)
Upper(t) == [k \in 1..Len(t) |-> IF t[k] = 69 THEN 101 ELSE t[k]]
DigitsOf(t) ==
  LET u == Upper(Signed(t))
      k == FirstPos(u, 101)
      mant == IF k = 0 THEN u ELSE SubSeq(u, 1, k - 1)
      ex == IF k = 0 THEN <<48>> ELSE Drop(u, k)
      p == Split(mant, DOT)
      all == IF Len(p) = 2 THEN p[1] \o p[2] ELSE mant
      n == (IF Head(ex) = HYPHEN THEN -1 ELSE 1) * NatOf(Signed(ex))
  IN  DigitNumber(t[1] = HYPHEN, [j \in 1..Len(all) |-> all[j] - 48], Len(p[1]) + n)

(* rounded to n digits                                                       *)
Increment(d) ==       \* [carry, d]
  LET r == FoldRight(LAMBDA x, s : [c |-> IF x + s.c = 10 THEN 1 ELSE 0, d |-> <<(x + s.c) % 10>> \o s.d], d, [c |-> 1, d |-> <<>>])
  IN  [carry |-> r.c, d |-> IF r.c = 1 THEN <<1>> \o r.d ELSE r.d]
Rounded(x, n) ==
  IF Len(x.d) <= n THEN x
  ELSE LET keep == SubSeq(x.d, 1, n)  rest == Drop(x.d, n)
           half == Head(rest) = 5 /\ Len(rest) = 1          \* there are no zeros at the end
           up == IF half THEN Last1(keep) % 2 = 1 ELSE Head(rest) >= 5
           i == Increment(keep)
       IN  IF up THEN DigitNumber(x.neg, i.d, x.e + i.carry) ELSE DigitNumber(x.neg, keep, x.e)

(* written                                                                   *)
Chars(d) == [j \in 1..Len(d) |-> 48 + d[j]]
Padded(d, n) == Chars(d) \o Repeat(48, n - Len(d))
Sign(x) == IF x.neg THEN <<HYPHEN>> ELSE <<>>
Fraction(d) == IF d = <<>> THEN <<>> ELSE <<DOT>> \o d
Exponent(n) == LET m == IF n < 0 THEN -n ELSE n  t == DecNat(m) IN
  <<101, IF n < 0 THEN HYPHEN ELSE PLUS>> \o (IF m < 10 THEN <<48>> \o t ELSE t)
General(x, n) ==
  LET r == Rounded(x, n)  k == r.e - 1  m == Len(r.d) IN        \* 10^k is the place of the first digit
    Sign(r) \o
    (IF r.d = <<>> THEN <<48>>
     ELSE IF k < -4 \/ k >= n THEN Chars(<<r.d[1]>>) \o Fraction(Chars(Tail(r.d))) \o Exponent(k)
     ELSE IF r.e <= 0 THEN <<48, DOT>> \o Repeat(48, -r.e) \o Chars(r.d)
     ELSE IF m <= r.e THEN Padded(r.d, r.e)
     ELSE Chars(SubSeq(r.d, 1, r.e)) \o Fraction(Chars(Drop(r.d, r.e))))
Whole(x) == (IF x.d = <<>> THEN <<>> ELSE Sign(x)) \o (IF x.d = <<>> THEN <<48>> ELSE Padded(x.d, x.e))

FLOATDIGITS == 7
DOUBLEDIGITS == 16
Figures(t) == \E j \in 1..Len(t) : IsDigit(t[j])
(* of the number with the exact value t, a text; infinities and what is no number are written as they are *)
TextOf(type, t) ==
  LET x == DigitsOf(t) IN
  CASE ~Figures(t) -> t
    [] type = TFLOAT -> General(x, FLOATDIGITS)
    [] type = TDOUBLE -> General(x, DOUBLEDIGITS)
    [] OTHER -> Whole(x)
=============================================================================
