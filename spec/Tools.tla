-------------------------------- MODULE Tools --------------------------------
(* What the programs of the framework measure: the steps of their tests, as  *)
(* they follow from the arguments which are left.                            *)
EXTENDS Regression

Measured(file, name, type, text) == [k |-> "m", file |-> file, name |-> name, type |-> type, text |-> text, tol |-> FALSE, exact |-> FALSE]
Returns(v) == [k |-> "ret", v |-> v]
Unclear == [k |-> "any"]

-----------------------------------------------------------------------------
(* tfPipeToXML: the command wrote to its output and then ended.  child:      *)
(* [writes, end, code], with the end "exit", "signal" or "none" (it could    *)
(* not be started)                                                           *)
STDOUT == B("stdout")
OutputOf(writes) == FoldLeft(LAMBDA a, w : IF w.k = "o" THEN a \o w.text ELSE a, <<>>, writes)
PipeOps(child) == <<Measured(FALSE, STDOUT, PLAIN, OutputOf(child.writes)), Returns(IF child.end = "exit" THEN child.code ELSE -1)>>

-----------------------------------------------------------------------------
(* itktfImageCompare                                                         *)
INTENSITY == B("--intensityTolerance")  PIXELS == B("--numberOfPixelTolerance")  RADIUS == B("--radiusTolerance")
IMAGEFILE == B("ImageFile")
Decimal3(n) == IF n < 100 THEN Digits(n) ELSE Digits(n \div 100) \o <<48 + (n % 100) \div 10, 48 + (n % 10)>>
HasDigit(t) == \E j \in 1..Len(t) : IsDigit(t[j])
Powers == <<2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>
Four == R(<<52>>)
NatNum(n) == Num(FALSE, Trim(<<n % Limb, n \div Limb>>), 0)
(* the whole quarters of a number, at most 4095 *)
Quarters(v) == LET q == Mul(Four, Abs(v)) IN FoldLeft(LAMBDA a, p : IF LeqAbs(NatNum(a + p), q) THEN a + p ELSE a, 0, Powers)
(* the value of an option: "ok", "bad" or "any" *)
RealValue(t) == LET u == Trimmed(t)  r == ReadReal(u) IN
  IF r.ok /\ ~LessAbs(MaxDouble, r.v) THEN [is |-> "ok", v |-> Quarters(r.v)]
  ELSE [is |-> IF ~HasDigit(t) /\ (u = <<>> \/ u[1] \notin {73, 78, 105, 110}) THEN "bad" ELSE "any", v |-> 0]
NaturalValue(t) == LET u == Trimmed(t) IN
  IF AllDigits(u) /\ Len(u) < 10 THEN [is |-> "ok", v |-> IntOf(u)]
  ELSE [is |-> IF ~HasDigit(t) THEN "bad" ELSE "any", v |-> 0]
RECURSIVE ImageOpsFrom(_, _, _)
ImageOpsFrom(rest, tol, n) ==
  IF rest = <<>> THEN <<Returns(0)>>
  ELSE LET a == Head(rest) IN
    IF a = <<>> THEN <<Unclear>>
    ELSE IF a[1] # HYPHEN
    THEN <<[k |-> "itol", v |-> tol], Measured(TRUE, IMAGEFILE \o Decimal3(n), IMAGE, a)>> \o ImageOpsFrom(Tail(rest), tol, n + 1)
    ELSE IF a \notin {INTENSITY, PIXELS, RADIUS} \/ Len(rest) = 1 THEN <<Returns(1)>>
    ELSE LET v == IF a = INTENSITY THEN RealValue(rest[2]) ELSE NaturalValue(rest[2]) IN
         CASE v.is = "bad" -> <<Returns(1)>>
           [] v.is = "any" -> <<Unclear>>
           [] OTHER -> ImageOpsFrom(Drop(rest, 2), IF a = INTENSITY THEN [tol EXCEPT !.int = v.v] ELSE IF a = PIXELS THEN [tol EXCEPT !.num = v.v] ELSE [tol EXCEPT !.rad = v.v], n)
ImageOps(rest) == ImageOpsFrom(rest, Exactly, 0)
=============================================================================
