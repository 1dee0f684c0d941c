----------------------------- MODULE ComponentsMC -----------------------------
(* Something with several components is measured, component by component,    *)
(* and compared with itself; at most one component has been changed.  The    *)
(* names are all different, and the result is the number of changes.         *)
EXTENDS Regression
CONSTANTS MaxDim
Kinds == {"size", "index", "region", "point", "matrix"}
Op(kind, n, cols, tol) == [kind |-> kind, cols |-> cols, name |-> B("x"), tol |-> tol, vals |-> [j \in 1..n |-> Digits(j % 100)], exacts |-> [j \in 1..n |-> TRUE]]
Ops == {Op(k, n, 1, t) : k \in Kinds \ {"matrix"}, n \in {2 * d : d \in 1..MaxDim}, t \in BOOLEAN}
       \cup {Op("matrix", r * c, c, TRUE) : r \in 1..MaxDim, c \in 1..MaxDim}
       \cup {Op("index", d, 1, FALSE) : d \in 1..MaxDim}
Changed(op, j) == IF j = 0 THEN op ELSE [op EXCEPT !.vals[j] = B("7777")]
NoWorld == World(EmptyFs, B("/w"), <<>>, <<>>, FALSE)
VARIABLES op, j, s
vars == <<op, j, s>>
Init == op \in Ops /\ j \in 0..Len(op.vals)
        /\ s = [Fresh(<<>>, Settings, NoWorld) EXCEPT !.ph = "test", !.started = TRUE, !.mode = "cmp", !.base = [i \in 1..Len(op.vals) |-> Recorded(Components(op)[i])]]
Next == /\ s.ph = "test" /\ UNCHANGED <<op, j>>
        /\ s' = IF s.made < Len(op.vals) THEN Measure(s, Components(Changed(op, j))[s.made + 1]) ELSE Return(s, 0)
Spec == Init /\ [][Next]_vars
OneEach == LET l == Components(op) IN
  /\ Len(l) = Len(op.vals)
  /\ \A i \in 1..Len(l) : l[i].text = op.vals[i] /\ l[i].tol = op.tol /\ StartsWith(l[i].name, op.name)
  /\ \A i, k \in 1..Len(l) : i # k => l[i].name # l[k].name
CountsChanges == s.ph = "done" => ResultIs(s, IF j = 0 THEN 0 ELSE 1)
=============================================================================
