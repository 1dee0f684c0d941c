------------------------------ MODULE Tolerance ------------------------------
(* The tolerant comparison of numeric measurements.  The contents are text;  *)
(* the numbers are exact decimals.  The implementation computes with numbers *)
(* of limited precision, so for arguments which are too near to the border   *)
(* the answer is "any", unless all the numbers are known to be exact.        *)
EXTENDS Decimal

Blank_(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Trimmed(t) ==
  LET first == FoldLeftDomain(LAMBDA a, k : IF a = 0 /\ ~Blank_(t[k]) THEN k ELSE a, 0, t)
      last == FoldLeftDomain(LAMBDA a, k : IF Blank_(t[k]) THEN a ELSE k, 0, t)
  IN  IF first = 0 THEN <<>> ELSE SubSeq(t, first, last)

R(t) == ReadReal(t).v
EpsFloat == R(B("1.1920928955078125e-07"))
EpsDouble == R(B("2.220446049250313080847263336181640625e-16"))
MaxFloat == R(B("3.4028234663852886e38"))
MaxDouble == R(B("1.7976931348623157e308"))
MaxLong == R(B("9223372036854775807"))
MinLong == R(B("9223372036854775808"))
DefaultTolerance == B("7.62939453125e-06")
SlackFloat == R(B("4.76837158203125e-07"))      \* 2^-21
SlackDouble == R(B("8.8817841970012523e-16"))
SlackLong == R(B("8.673617379884035e-19"))      \* 2^-60

TINT == B("numeric/integer")  TFLOAT == B("numeric/float")  TDOUBLE == B("numeric/double")  TBOOL == B("numeric/boolean")
Numeric(type) == type \in {TINT, TFLOAT, TDOUBLE, TBOOL}

(* the number which a content is, if it is one *)
ValueOf(type, t) ==
  LET i == ReadInteger(Trimmed(t))  r == ReadReal(Trimmed(t)) IN
    CASE type = TINT -> IF i.ok /\ ~LessAbs(IF i.v.neg THEN MinLong ELSE MaxLong, i.v) THEN i ELSE NoNumber
      [] type = TFLOAT -> IF r.ok /\ ~LessAbs(MaxFloat, r.v) THEN r ELSE NoNumber
      [] type = TDOUBLE -> IF r.ok /\ ~LessAbs(MaxDouble, r.v) THEN r ELSE NoNumber
      [] type = TBOOL -> IF i.ok /\ i.v \in {Zero, R(<<49>>)} THEN i ELSE NoNumber

(* the relation itself *)
Within(u, v, e) == LET d == Sub(u, v) IN LeqAbs(d, Mul(e, u)) \/ LeqAbs(d, Mul(e, v))
BothTiny(type, u, v) == LET eps == IF type = TFLOAT THEN EpsFloat ELSE EpsDouble IN
  type \in {TFLOAT, TDOUBLE} /\ LessAbs(u, eps) /\ LessAbs(v, eps)
Near(type, u, v, e) == Within(u, v, e) \/ BothTiny(type, u, v)

(* with a slack for the precision of the machine *)
SurelyIn(d, e, u, slack) == LeqAbs(Add(Abs(d), slack), Mul(e, u))
SurelyOut(d, e, u, slack) == LessAbs(Add(Abs(Mul(e, u)), slack), Abs(d))
Tolerant(type, u, v, e, exact) ==
  LET d == Sub(u, v)
      s == Mul(IF type = TFLOAT THEN SlackFloat ELSE IF type = TDOUBLE THEN SlackDouble ELSE SlackLong, Add(Abs(u), Abs(v)))
      eps == IF type = TFLOAT THEN EpsFloat ELSE EpsDouble
  IN  IF type = TBOOL THEN (IF d = Zero THEN "yes" ELSE "no")
      ELSE IF exact \/ d.m = <<>> THEN (IF Near(type, u, v, e) THEN "yes" ELSE "no")
      ELSE IF BothTiny(type, Add(Abs(u), s), Add(Abs(v), s)) \/ SurelyIn(d, e, u, s) \/ SurelyIn(d, e, v, s) THEN "yes"
      ELSE IF SurelyOut(d, e, u, s) /\ SurelyOut(d, e, v, s)
              /\ ~(type \in {TFLOAT, TDOUBLE} /\ LeqAbs(Sub(Abs(u), s), eps) /\ LeqAbs(Sub(Abs(v), s), eps)) THEN "no"
      ELSE "any"

(* do the contents u and v of a type match with the tolerance e, a text?     *)
NumberMatch(type, u, v, e, exact) ==
  LET a == ValueOf(type, u)  b == ValueOf(type, v)  t == Abs(R(e)) IN
    IF t.m = <<>> \/ ~a.ok \/ ~b.ok THEN (IF u = v THEN "yes" ELSE "no")
    ELSE Tolerant(type, a.v, b.v, t, exact)
=============================================================================
