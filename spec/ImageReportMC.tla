--------------------------- MODULE ImageReportMC ---------------------------
(* Pictures are made in the way it is done: the slice is cut out, its least  *)
(* and greatest values are found in one pass over the pixels, in another one *)
(* each value is moved and scaled, and the fraction is cut off or rounded.   *)
(* What comes out shows the slice; what comes out if the whole image is      *)
(* looked at for the range, or another slice is taken, does not.             *)
EXTENDS ImageReport
CONSTANTS Sizes, Values
SizesSmall == {<<1, 1, 1>>, <<2, 1, 2>>, <<1, 2, 3>>, <<3, 1, 1>>}
SizesMore == {<<2, 2, 1>>, <<2, 1, 3>>, <<2, 2, 2>>, <<4, 1, 1>>}

VARIABLES size, v, cut, lo, hi, at, p, ph
vars == <<size, v, cut, lo, hi, at, p, ph>>
Init == /\ size \in Sizes /\ v \in [1..Pixels(size) -> Values]
        /\ cut \in BOOLEAN /\ lo = 0 /\ hi = 0 /\ at = 0 /\ p = <<>> /\ ph = "range"
(* the pixel k of the slice: coordinates x, y of its middle plane *)
Pixel(k) == v[1 + ((k - 1) % size[1]) + size[1] * ((k - 1) \div size[1]) + size[1] * size[2] * (size[3] \div 2)]
Look == /\ ph = "range" /\ at < Slice(size)
        /\ at' = at + 1
        /\ lo' = (IF at = 0 \/ Pixel(at + 1) < lo THEN Pixel(at + 1) ELSE lo)
        /\ hi' = (IF at = 0 \/ Pixel(at + 1) > hi THEN Pixel(at + 1) ELSE hi)
        /\ UNCHANGED <<size, v, cut, p, ph>>
Turn == /\ ph = "range" /\ at = Slice(size) /\ ph' = "draw" /\ at' = 0 /\ UNCHANGED <<size, v, cut, lo, hi, p>>
Level(x) == IF lo = hi THEN 0 ELSE IF cut THEN (White * (x - lo)) \div (hi - lo) ELSE (2 * White * (x - lo) + (hi - lo)) \div (2 * (hi - lo))
Draw == /\ ph = "draw" /\ at < Slice(size) /\ at' = at + 1 /\ p' = Append(p, Level(Pixel(at + 1)))
        /\ UNCHANGED <<size, v, cut, lo, hi, ph>>
Next == Look \/ Turn \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ph = "draw" /\ at = Slice(size)
M == Middle(size, v)
Right == Done => Shows(p, M)
(* the ends of the range are there, and the order is that of the values *)
Ends_ == (Done /\ Least(M) # Most(M)) =>
  /\ \E k \in 1..Len(p) : p[k] = 0
  /\ \E k \in 1..Len(p) : p[k] = White
  /\ \A i, j \in 1..Len(p) : M[i] < M[j] => p[i] < p[j]
(* no other picture of the values is taken for it *)
Distinct == Done =>
  \A w \in [1..Len(M) -> Values] : (Shows(p, w) /\ Least(w) # Most(w) /\ Least(M) # Most(M)) =>
     \A i, j, k \in 1..Len(M) : Mag((w[i] - w[j]) * (Most(M) - Least(M)) - (M[i] - M[j]) * (Most(w) - Least(w))) * White
                                  <= 4 * (Most(M) - Least(M)) * (Most(w) - Least(w))
(* the difference of an image and itself is nothing, and of others it says   *)
(* what has to be added to the one to get the other                          *)
Sums == ph = "range" /\ at = 0 =>
  /\ DifferenceOf(size, v, v, 0, 1) = [k \in 1..Pixels(size) |-> 0]
  /\ \A d \in Values : LET w == [k \in 1..Pixels(size) |-> v[k] + d] IN
       DifferenceOf(size, v, w, 0, 0) = [k \in 1..Pixels(size) |-> -d] /\ Sharp(size, v, w, 0, 0)
Finishes == <>Done
=============================================================================
