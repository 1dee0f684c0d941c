---------------------------- MODULE ImageReport ----------------------------
(* What is shown of two images which are different: of what kind they are,   *)
(* and pictures of their middle slices.  An image here is a record as in     *)
(* ImageCompare, of three dimensions, with the type ty of the components of  *)
(* a pixel, their number ch, and the kind pt of the pixels.                  *)
EXTENDS ImageCompare

(* the slice in the middle of the third dimension *)
Slice(size) == size[1] * size[2]
Middle(size, v) == LET n == Slice(size)  at == (size[3] \div 2) * n IN SubSeq(v, at + 1, at + n)

Least(v) == FoldLeft(LAMBDA m, x : IF x < m THEN x ELSE m, v[1], v)
Most(v) == FoldLeft(LAMBDA m, x : IF x > m THEN x ELSE m, v[1], v)
(* p shows v with the gray levels 0 to 255: the least value is black, the    *)
(* greatest one white, and the others are between them in proportion, to one *)
(* level; a slice which has one value only has one level                     *)
White == 255
Shows(p, v) ==
  /\ Len(p) = Len(v) /\ \A k \in 1..Len(p) : p[k] \in 0..White
  /\ LET lo == Least(v)  hi == Most(v) IN
       IF lo = hi THEN \A k \in 1..Len(p) : p[k] = p[1]
       ELSE \A k \in 1..Len(p) : /\ Mag(p[k] * (hi - lo) - White * (v[k] - lo)) <= hi - lo
                                 /\ v[k] = v[1] => p[k] = p[1]
(* numbers which are too large for the calculation above *)
Wide(v) == Most(v) \div 2 - Least(v) \div 2 > 4000000

(* the difference to the nearest pixel, with its sign, where it is too       *)
(* large; 0 elsewhere.  At some pixels both signs may be as near.            *)
Nears(size, a, b, k, r) == {d \in {a[k] - b[j] : j \in Box(size, k, r)} : Mag(d) = Nearest(size, a, b, k, r)}
Sharp(size, a, b, t, r) == \A k \in Different(size, a, b, t, r, FALSE) : Cardinality(Nears(size, a, b, k, r)) = 1
DifferenceOf(size, a, b, t, r) ==
  LET s == Different(size, a, b, t, r, FALSE) IN [k \in 1..Pixels(size) |-> IF k \in s THEN CHOOSE d \in Nears(size, a, b, k, r) : TRUE ELSE 0]

(* what is said of the kinds of two images: the names of the measurements,   *)
(* with their contents                                                       *)
Kinds(x, y) ==
  (IF x.pt # y.pt THEN <<<<B("Baseline PixelType "), x.pt>>, <<B("Test PixelType "), y.pt>>>> ELSE <<>>) \o
  (IF x.ty # y.ty THEN <<<<B("Baseline ComponentType "), x.ty>>, <<B("Test ComponentType "), y.ty>>>> ELSE <<>>) \o
  (IF x.ch # y.ch THEN <<<<B("Baseline Number Of Components "), <<48 + x.ch>>>>, <<B("Test Number Of Components "), <<48 + y.ch>>>>>> ELSE <<>>)
KindNames == {B("Baseline PixelType "), B("Test PixelType "), B("Baseline ComponentType "), B("Test ComponentType "),
              B("Baseline Number Of Components "), B("Test Number Of Components ")}
(* the pictures: what is appended to the name of the image of the test, and  *)
(* what is to be seen                                                        *)
DIFF == B(".diff.png")  BASE == B(".base.png")  TEST == B(".test.png")
Views(x, y, tol) == {<<DIFF, DifferenceOf(x.size, x.pix, y.pix, tol.int, tol.rad)>>, <<BASE, x.pix>>, <<TEST, y.pix>>}
=============================================================================
