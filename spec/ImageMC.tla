------------------------------- MODULE ImageMC -------------------------------
(* The counting of different pixels as it is done: the pixels are divided    *)
(* among the workers, each of which has a counter and a sum of its own; in   *)
(* the end these are added up.  However the image is divided, and in         *)
(* whatever order the workers go on, the result is that of the definition.   *)
(* A second pass starts anew.                                                *)
EXTENDS ImageCompare
CONSTANTS Sizes, Values, Tols, Radii, Workers

SizesSmall == {<<1>>, <<3>>, <<2, 2>>}
SizesMore == {<<4>>, <<2, 2>>, <<2, 1, 2>>, <<1, 3>>}

VARIABLES size, a, b, t, r, ign, owner, left, num, sum, pass
vars == <<size, a, b, t, r, ign, owner, left, num, sum, pass>>
W == 1..Workers
Init ==
  /\ size \in Sizes /\ a \in [1..Pixels(size) -> Values] /\ b \in [1..Pixels(size) -> Values]
  /\ t \in Tols /\ r \in Radii /\ ign \in BOOLEAN
  /\ owner \in {o \in [1..Pixels(size) -> W] : \A k \in 1..(Pixels(size) - 1) : o[k] <= o[k + 1]}
  /\ left = 1..Pixels(size) /\ num = [w \in W |-> 0] /\ sum = [w \in W |-> 0] /\ pass = 1
(* a worker does its first pixel which is left *)
Mine(w) == {k \in left : owner[k] = w}
First(s) == CHOOSE k \in s : \A j \in s : k <= j
Do(w) ==
  /\ Mine(w) # {}
  /\ LET k == First(Mine(w)) IN
     /\ left' = left \ {k}
     /\ IF k \in Different(size, a, b, t, r, ign)
        THEN num' = [num EXCEPT ![w] = @ + 1] /\ sum' = [sum EXCEPT ![w] = @ + Nearest(size, a, b, k, r)]
        ELSE UNCHANGED <<num, sum>>
  /\ UNCHANGED <<size, a, b, t, r, ign, owner, pass>>
Again == /\ left = {} /\ pass = 1 /\ pass' = 2
         /\ left' = 1..Pixels(size) /\ num' = [w \in W |-> 0] /\ sum' = [w \in W |-> 0]
         /\ UNCHANGED <<size, a, b, t, r, ign, owner>>
Next == (\E w \in W : Do(w)) \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AddUp(f) == FoldLeftDomain(LAMBDA n, w : n + f[w], 0, [w \in W |-> w])
Adds == left = {} =>
  /\ AddUp(num) = Cardinality(Different(size, a, b, t, r, ign))
  /\ AddUp(sum) = Total(size, a, b, t, r, ign)
(* laws of the definition *)
Laws ==
  (left = {} /\ ~ign) =>
  /\ Count(size, a, a, t, r) = 0
  /\ Count(size, a, b, t, r + 1) <= Count(size, a, b, t, r)
  /\ Count(size, a, b, t + 1, r) <= Count(size, a, b, t, r)
  /\ Count(size, a, b, t, 0) = Count(size, b, a, t, 0)
  /\ Count(size, a, b, -t, r) = Count(size, a, b, t, r)
  /\ Cardinality(Different(size, a, b, t, r, TRUE)) <= Count(size, a, b, t, r)
  /\ Part(size, a, size, [d \in 1..Len(size) |-> 0]) = a
  /\ \A d \in 1..Len(size) :                  \* the parts of an image are its differences
       LET u == [size EXCEPT ![d] = 1]
           at(n) == [e \in 1..Len(size) |-> IF e = d THEN n ELSE 0]
       IN  FoldLeftDomain(LAMBDA n, j : n + Count(u, Part(size, a, u, at(j - 1)), Part(size, b, u, at(j - 1)), t, 0), 0, [j \in 1..size[d] |-> j]) = Count(size, a, b, t, 0)
  /\ (a # b <=> Count(size, a, b, 0, 0) > 0)
  /\ \A k \in 1..Pixels(size) : Box(size, k, 4) = 1..Pixels(size) /\ Box(size, k, 0) = {k}
  /\ Total(size, a, b, t, r, FALSE) > Count(size, a, b, t, r) * t \/ Count(size, a, b, t, r) = 0
(* pixels of one component are as numbers; a component which is the same in  *)
(* both images, the order of components and their signs make no difference   *)
Interleaved(x, y) == [j \in 1..(2 * Len(x)) |-> IF j % 2 = 1 THEN x[1 + ((j - 1) \div 2)] ELSE y[1 + ((j - 1) \div 2)]]
Minus(x) == [k \in DOMAIN x |-> -x[k]]
Components ==
  left = {} =>
  LET D == Different(size, a, b, t, r, ign)
      same == Interleaved(a, a)  c == Interleaved(a, b)  d == Interleaved(b, a)
  IN
  /\ DifferentOf(size, 1, a, b, t, r, ign) = D
  /\ \A k \in D : NearestOf(size, 1, a, b, k, r) = Nearest(size, a, b, k, r) * Nearest(size, a, b, k, r)
  /\ TotalOf(size, 1, a, b, t, r, ign) = 256 * Total(size, a, b, t, r, ign)
  /\ LET z == [k \in DOMAIN a |-> 7] IN DifferentOf(size, 2, Interleaved(a, z), Interleaved(b, z), t, r, ign) = D /\ DifferentOf(size, 2, Interleaved(z, a), Interleaved(z, b), t, r, ign) = D
  /\ DifferentOf(size, 2, c, d, t, r, ign) = DifferentOf(size, 2, d, c, t, r, ign)
  /\ DifferentOf(size, 2, Minus(c), Minus(d), t, r, ign) = DifferentOf(size, 2, c, d, t, r, ign)
  /\ D \subseteq DifferentOf(size, 2, same, Interleaved(b, b), t, r, ign)
Roots == \A x \in {0, 1, 2, 3, 4, 24, 25, 26, 65536, 1073741823} : RootOf(x) * RootOf(x) <= x /\ (RootOf(x) < 32767 => (RootOf(x) + 1) * (RootOf(x) + 1) > x)
Ends == <>(left = {} /\ pass = 2)
=============================================================================
