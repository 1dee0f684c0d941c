-------------------------------- MODULE Path --------------------------------
(* Names of files as text: joining, taking apart, colon separated lists.     *)
EXTENDS Bytes

SLASH == 47
PERIOD == 46
COLON == 58
Root == <<SLASH>>
Here == <<PERIOD>>

IsAbsolute(p) == Len(p) > 0 /\ p[1] = SLASH

(* without the separators at the end, but the root stays *)
Stripped(p) ==
  LET n == FoldLeftDomain(LAMBDA a, i : IF p[i] # SLASH THEN i ELSE a, 0, p)
  IN  IF Len(p) = 0 THEN p ELSE SubSeq(p, 1, IF n = 0 THEN 1 ELSE n)

AppendPath(a, b) ==
  IF IsAbsolute(b) \/ a = <<>> THEN b
  ELSE IF Stripped(a) = Root THEN Root \o b
  ELSE Stripped(a) \o Root \o b

DirectoryName(p) == LET k == LastPos(p, SLASH) IN
  IF k = 0 THEN Here ELSE IF k = 1 THEN Root ELSE SubSeq(p, 1, k - 1)
Tail_(p) == Drop(p, LastPos(p, SLASH))
Extension(p) == LET t == Tail_(p) k == LastPos(t, PERIOD) IN
  IF k = 0 THEN <<>> ELSE Drop(t, k)

(* repeated separators count as one *)
Squeezed(p) == FoldLeftDomain(LAMBDA a, i : IF i > 1 /\ p[i] = SLASH /\ p[i-1] = SLASH THEN a ELSE Append(a, p[i]), <<>>, p)

(* colon separated lists *)
ColonList(v) == IF v = <<>> THEN <<>> ELSE Split(v, COLON)

-----------------------------------------------------------------------------
(* what users of the operations rely on *)
JoinLaw(d, n) ==      \* n a relative name without separators
  (LastPos(n, SLASH) = 0 /\ n # <<>> /\ d # <<>>) =>
     LET r == AppendPath(d, n) IN
       /\ Tail_(r) = n
       /\ DirectoryName(r) = Stripped(d)
       /\ LET s == Stripped(d) IN Len(r) = Len(s) + Len(n) + (IF s = Root THEN 0 ELSE 1)
SplitLaw(p) == LastPos(p, SLASH) # 0 => Squeezed(AppendPath(DirectoryName(p), Tail_(p))) = Squeezed(p)
AbsoluteLaw(a, b) == IsAbsolute(b) => AppendPath(a, b) = b
KindLaw(a, b) == a # <<>> => (IsAbsolute(AppendPath(a, b)) <=> IsAbsolute(a) \/ IsAbsolute(b))
AssociativeLaw(a, b, c) == (b # <<>>) =>
  Squeezed(AppendPath(AppendPath(a, b), c)) = Squeezed(AppendPath(a, AppendPath(b, c)))
ExtensionLaw(p) == LET e == Extension(p) IN
  /\ LastPos(e, PERIOD) = 0 /\ LastPos(e, SLASH) = 0
  /\ e # <<>> => SubSeq(p, Len(p) - Len(e), Len(p)) = <<PERIOD>> \o e
ListLaw(v) == LET l == ColonList(v) IN
  /\ Join(l, COLON) = v
  /\ Len(l) = IF v = <<>> THEN 0 ELSE 1 + Len(SelectSeq(v, LAMBDA b : b = COLON))
  /\ \A i \in 1..Len(l) : LastPos(l[i], COLON) = 0
=============================================================================
