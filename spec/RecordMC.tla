------------------------------- MODULE RecordMC -------------------------------
(* A recording which is written byte by byte and may end after any of them,  *)
(* and a second run which is compared with what the first one left.          *)
EXTENDS Regression
CONSTANTS MaxMade, MaxSecond

Letters == {[file |-> FALSE, name |-> <<97>>, type |-> PLAIN, text |-> <<60, 38>>, tol |-> FALSE, exact |-> FALSE],
            [file |-> FALSE, name |-> <<97>>, type |-> B("text/string"), text |-> B("</output>"), tol |-> FALSE, exact |-> FALSE],
            [file |-> FALSE, name |-> <<98, 34>>, type |-> PLAIN, text |-> <<>>, tol |-> FALSE, exact |-> FALSE],
            [file |-> FALSE, name |-> <<97>>, type |-> TINT, text |-> <<55>>, tol |-> TRUE, exact |-> TRUE]}
Lists(n) == UNION {[1..k -> Letters] : k \in 0..n}
Written1(m) == Written(Recorded(m))
Doc(l) == Document([k \in 1..Len(l) |-> Recorded(l[k])])
Place_ == <<<<111>>>>
TheWorld(d) == World((<<>> :> DirNode(493)) @@ (Place_ :> FileNode(420)), B("/w"), (Place_ :> d), <<>>, FALSE)

VARIABLES made, doc, at, rd, ph, second, s
vars == <<made, doc, at, rd, ph, second, s>>
NoRun == [ph |-> "none"]
Init == made \in Lists(MaxMade) /\ doc = Doc(made) /\ at = 0 /\ rd = Reader /\ ph = "writing" /\ second = <<>> /\ s = NoRun
Write == /\ ph = "writing" /\ at < Len(doc)
         /\ at' = at + 1 /\ rd' = ReadByte(rd, doc[at + 1])
         /\ UNCHANGED <<made, doc, ph, second, s>>
Ends == /\ ph = "writing" /\ ph' = (IF at = Len(doc) THEN "complete" ELSE "interrupted")
        /\ UNCHANGED <<made, doc, at, rd, second, s>>
(* the second run *)
Edits(l) == {l} \cup {SubSeq(l, 1, k) : k \in 0..Len(l)} \cup {[l EXCEPT ![k] = m] : k \in 1..Len(l), m \in Letters}
            \cup {Append(l, m) : m \in Letters} \cup {Drop(l, k) : k \in 0..Len(l)}
Second == /\ ph \in {"complete", "interrupted"} /\ s = NoRun
          /\ second' \in (IF ph = "complete" THEN Edits(made) \cup Lists(MaxSecond) ELSE {made, <<>>, SubSeq(made, 1, Len(SelectSeq(rd.items, IsMeasurement)))})
          /\ s' = (IF Usable(rd) THEN [Fresh(<<>>, [Settings EXCEPT !.in = <<111>>], TheWorld(<<>>)) EXCEPT
                                        !.ph = "test", !.started = TRUE, !.mode = "cmp", !.base = Measurements(rd)]
                   ELSE Aborted(Fresh(<<>>, [Settings EXCEPT !.in = <<111>>], TheWorld(<<>>))))
          /\ UNCHANGED <<made, doc, at, rd, ph>>
Goes == /\ s.ph = "test"
        /\ s' = (IF s.made < Len(second) THEN Measure(s, second[s.made + 1]) ELSE Return(s, 0))
        /\ UNCHANGED <<made, doc, at, rd, ph, second>>
Next == Write \/ Ends \/ Second \/ Goes
Spec == Init /\ [][Next]_vars

Over == s.ph = "done"
OnlyBlankLeft == BlankText(Drop(doc, at))
(* P06 *)
RecordedIsRead == ph = "complete" => Usable(rd) /\ ~rd.stray /\ Measurements(rd) = [k \in 1..Len(made) |-> Recorded(made[k])]
(* P08 *)
InterruptedIsNoBaseline == (Over /\ ph = "interrupted" /\ ~OnlyBlankLeft) => ~ResultIs(s, Success)
(* P07 *)
Differing == Cardinality({k \in 1..Len(second) : k > Len(made) \/ made[k] # second[k]})
ReplayMatches == (Over /\ ph = "complete") => Result(s) = Differing
(* and the run is the same as when it reads the file itself *)
SameAsReading == (Over /\ ph = "complete") =>
  LET b == Begin([Fresh(<<>>, [Settings EXCEPT !.in = <<111>>], TheWorld(doc)) EXCEPT !.ph = "begin"]) IN b.started /\ b.base = s.base
===============================================================================
