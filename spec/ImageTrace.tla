----------------------------- MODULE ImageTrace -----------------------------
(* Differences of images computed by the real code.                          *)
EXTENDS ImageCompare, Observed

S1 == Ob.size
InUnits(t, n) == LET x == Sub(ReadReal(t).v, Num(FALSE, Trim(<<n % Limb, n \div Limb>>), 0)) IN ReadReal(t).ok /\ x.m = <<>>
(* the mean is rounded *)
MeanIs(t, n, p) == LET m == ReadReal(t)  d == Sub(Mul(m.v, Num(FALSE, <<p>>, 0)), Num(FALSE, Trim(<<n % Limb, n \div Limb>>), 0)) IN
  m.ok /\ LeqAbs(Mul(d, R(B("1e12"))), Num(FALSE, Trim(<<n % Limb, n \div Limb>>), 0))
Diffs == Different(S1, Ob.a, Ob.b, Ob.t, Ob.r, Ob.ignore)
StatOk(st) ==
  /\ st.num = Cardinality(Diffs)
  /\ LET n == Total(S1, Ob.a, Ob.b, Ob.t, Ob.r, Ob.ignore) IN InUnits(st.total, n) /\ MeanIs(st.mean, n, Pixels(S1))
OutOk(k) == IF k \in Diffs THEN Mag(Ob.out[k]) = Nearest(S1, Ob.a, Ob.b, k, Ob.r) /\ \E j \in Box(S1, k, Ob.r) : Ob.out[k] = Ob.a[k] - Ob.b[j]
            ELSE Ob.out[k] = 0
CompareOk(j) ==
  IF Ob.at # <<>> THEN LET n == Count(Ob.sizeb, Part(S1, Ob.a, Ob.sizeb, Ob.at), Ob.b, Ob.t, Ob.r) IN Ob.cmps[j] = IF n <= Ob.ptol[j] THEN 0 ELSE n - Ob.ptol[j]
  ELSE IF Ob.size # Ob.sizeb THEN Ob.cmps[j] = -1
  ELSE LET n == Count(S1, Ob.a, Ob.b, Ob.t, Ob.r) IN Ob.cmps[j] = IF n <= Ob.ptol[j] THEN 0 ELSE n - Ob.ptol[j]

(* pixels with components *)
N == Ob.comps
DiffsOf == DifferentOf(S1, N, Ob.a, Ob.b, Ob.t, Ob.r, Ob.ignore)
StatOfOk(st) ==
  /\ st.num = Cardinality(DiffsOf)
  /\ LET n == TotalOf(S1, N, Ob.a, Ob.b, Ob.t, Ob.r, Ob.ignore)  p == Pixels(S1) IN
     /\ n - 1 <= st.total /\ st.total <= n + st.num
     /\ Mag(st.mean * p - st.total) <= p + 1
OutOfOk(k) ==
  LET o == PartsAt(Ob.out, k, N)  p == PartsAt(Ob.a, k, N)  zero == [i \in 1..N |-> 0] IN
  IF k \in DiffsOf THEN /\ Square(o, zero) = NearestOf(S1, N, Ob.a, Ob.b, k, Ob.r)
                        /\ \E j \in Box(S1, k, Ob.r) : o = [i \in 1..N |-> p[i] - PartsAt(Ob.b, j, N)[i]]
  ELSE o = zero
CompareOfOk(j) ==
  LET n == IF Ob.at # <<>> THEN CountOfParts(Ob.sizeb, N, PartOf(S1, N, Ob.a, Ob.sizeb, Ob.at), Ob.b, Ob.t, Ob.r) ELSE CountOfParts(S1, N, Ob.a, Ob.b, Ob.t, Ob.r) IN
  IF Ob.at = <<>> /\ Ob.size # Ob.sizeb THEN Ob.cmps[j] = -1
  ELSE Ob.cmps[j] = IF n <= Ob.ptol[j] THEN 0 ELSE n - Ob.ptol[j]

Alright == Answered /\ Ob.threw = 0
NotThrown == Answered => Ob.threw = 0
Statistics == (Alright /\ Ob.at = <<>> /\ Ob.size = Ob.sizeb) => Len(Ob.stats) = Ob.passes /\ \A j \in 1..Len(Ob.stats) : IF N = 0 THEN StatOk(Ob.stats[j]) ELSE StatOfOk(Ob.stats[j])
Output == (Alright /\ Ob.at = <<>> /\ Ob.size = Ob.sizeb) => Len(Ob.out) = Pixels(S1) * (IF N = 0 THEN 1 ELSE N) /\ \A k \in 1..Pixels(S1) : IF N = 0 THEN OutOk(k) ELSE OutOfOk(k)
(* images in files are compared as those in memory *)
FromFiles == (Alright /\ Ob.inFiles) => Ob.fcmps = Ob.cmps
Compared == Alright => Len(Ob.cmps) = Len(Ob.ptol) /\ \A j \in 1..Len(Ob.cmps) : IF N = 0 THEN CompareOk(j) ELSE CompareOfOk(j)
=============================================================================
