---------------------------- MODULE ImageCompare ----------------------------
(* The comparison of two images.  An image is [size, spacing, origin, pix]:  *)
(* sequences, one entry for each dimension, and the pixels, the first        *)
(* dimension fastest.  Pixels are numbers in some unit.                      *)
EXTENDS Tolerance

Dims(size) == Len(size)
Pixels(size) == FoldLeft(LAMBDA a, n : a * n, 1, size)
(* the coordinates of the pixel k, and back *)
Stride(size, d) == FoldLeft(LAMBDA a, n : a * n, 1, SubSeq(size, 1, d - 1))
Coord(size, k, d) == ((k - 1) \div Stride(size, d)) % size[d]
(* the box of the radius r around the pixel k, clipped at the border, as the *)
(* set of its pixels; made dimension by dimension                            *)
Range1(size, k, d, r) == LET c == Coord(size, k, d) IN (IF c < r THEN 0 ELSE c - r)..(IF c + r >= size[d] THEN size[d] - 1 ELSE c + r)
Box(size, k, r) ==
  FoldLeftDomain(LAMBDA s, d : {x + Stride(size, d) * c : x \in s, c \in Range1(size, k, d, r)}, {1}, size)
Interior(size, k, r) == \A d \in 1..Len(size) : Coord(size, k, d) >= r /\ Coord(size, k, d) + r < size[d]

Mag(x) == IF x < 0 THEN -x ELSE x
(* how far the pixel k of a is from the nearest one of b, and whether it is different *)
Nearest(size, a, b, k, r) == LET s == {Mag(a[k] - b[j]) : j \in Box(size, k, r)} IN CHOOSE m \in s : \A n \in s : m <= n
Within_(size, a, b, k, t, r) == Mag(a[k] - b[k]) <= Mag(t) \/ \E j \in Box(size, k, r) : Mag(a[k] - b[j]) <= Mag(t)
Different(size, a, b, t, r, ignore) == {k \in 1..Pixels(size) : (ignore => Interior(size, k, r)) /\ ~Within_(size, a, b, k, t, r)}
Count(size, a, b, t, r) == Cardinality(Different(size, a, b, t, r, FALSE))
Total(size, a, b, t, r, ignore) ==
  LET s == Different(size, a, b, t, r, ignore) IN FoldLeftDomain(LAMBDA n, k : IF k \in s THEN n + Nearest(size, a, b, k, r) ELSE n, 0, a)

(* the part of the pixels a of an image which an image of the size u, that   *)
(* begins at the place at of it, covers                                      *)
Covers(size, u, at) == Len(u) = Len(size) /\ \A d \in 1..Len(size) : at[d] >= 0 /\ at[d] + u[d] <= size[d]
PlaceOf(size, u, at, k) == 1 + FoldLeftDomain(LAMBDA n, d : n + (Coord(u, k, d) + at[d]) * Stride(size, d), 0, size)
Part(size, a, u, at) == [k \in 1..Pixels(u) |-> a[PlaceOf(size, u, at, k)]]

(* pixels which have n components each; the distance of two is Euclidean, so *)
(* the squares are compared                                                  *)
PartsAt(a, k, n) == SubSeq(a, (k - 1) * n + 1, k * n)
Square(x, y) == FoldLeftDomain(LAMBDA s, i : s + (x[i] - y[i]) * (x[i] - y[i]), 0, x)
WithinOf(size, n, a, b, k, t, r) == LET p == PartsAt(a, k, n) IN \E j \in Box(size, k, r) : Square(p, PartsAt(b, j, n)) <= t * t
DifferentOf(size, n, a, b, t, r, ignore) == {k \in 1..Pixels(size) : (ignore => Interior(size, k, r)) /\ ~WithinOf(size, n, a, b, k, t, r)}
CountOfParts(size, n, a, b, t, r) == Cardinality(DifferentOf(size, n, a, b, t, r, FALSE))
NearestOf(size, n, a, b, k, r) == LET p == PartsAt(a, k, n)  s == {Square(p, PartsAt(b, j, n)) : j \in Box(size, k, r)} IN CHOOSE m \in s : \A o \in s : m <= o
PartOf(size, n, a, u, at) == [j \in 1..(n * Pixels(u)) |-> a[(PlaceOf(size, u, at, 1 + ((j - 1) \div n)) - 1) * n + 1 + ((j - 1) % n)]]
(* the root of x < 2^30, without what is after the point *)
RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) == IF hi - lo = 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN RootIn(x, m, hi) ELSE RootIn(x, lo, m)
RootOf(x) == RootIn(x, 0, 32768)
(* the total difference in parts of 256, rounded down for each pixel *)
TotalOf(size, n, a, b, t, r, ignore) ==
  LET s == DifferentOf(size, n, a, b, t, r, ignore) IN
  FoldLeftDomain(LAMBDA m, k : IF k \in s THEN m + RootOf(65536 * NearestOf(size, n, a, b, k, r)) ELSE m, 0, [k \in 1..Pixels(size) |-> k])

(* two images; the first one is the baseline *)
SameNumber(t, u) == t = u \/ Sub(R(t), R(u)).m = <<>>
SameNumbers(s, u) == Len(s) = Len(u) /\ \A k \in 1..Len(s) : SameNumber(s[k], u[k])
SameGeometry(x, y) == x.size = y.size /\ SameNumbers(x.spacing, y.spacing) /\ SameNumbers(x.origin, y.origin)
(* tol: [int, num, rad] *)
Exactly == [int |-> 0, num |-> 0, rad |-> 0]
ImagesMatch(x, y, tol) == SameGeometry(x, y) /\ Count(x.size, x.pix, y.pix, tol.int, tol.rad) <= tol.num
=============================================================================
