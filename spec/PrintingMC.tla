------------------------------ MODULE PrintingMC ------------------------------
(* Objects are changed and printed into one document, which reads as what     *)
(* the objects were when they were printed.                                   *)
EXTENDS Printing
CONSTANT Steps
Texts == {<<>>, B("a]]>"), <<CR, NL>>, B("&amp;"), B("</o>")}
Names == {<<>>, B("n"), <<QUOT, APOS, LT>>, <<TAB, 32, NL>>}
Encs == {NoneEnc, B64Enc, B("\"<")}
Kinds == {"plain", "int", "file"}
New(kind) == Object(kind)
VARIABLES o, doc, made, n
vars == <<o, doc, made, n>>
Init == o \in {New(k) : k \in Kinds} /\ doc = <<>> /\ made = <<>> /\ n = 0
Set(p) == o' = p /\ UNCHANGED <<doc, made>>
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E t \in Texts : Set(SetText(o, t))
           \/ \E t \in Names : Set(SetName(o, t))
           \/ \E t \in Encs : Set(SetEnc(o, t)) \/ Set(SetComp(o, t))
           \/ \E b \in BOOLEAN : Set(SetEsc(o, b))
           \/ \E k \in Kinds : Set(New(k))
           \/ doc' = doc \o Printed(o) /\ made' = Append(made, o) /\ UNCHANGED o
Spec == Init /\ [][Next]_vars
Plain_(p) == p.esc \/ (PlainContent(p.text) /\ \A v \in Range(Values(p)) : NoMarkup(v))
Right == PrintedRight(Printed(o), o)
AllRead == (\A k \in 1..Len(made) : Plain_(made[k])) =>
             LET s == Wrapped(doc) IN Usable(s) /\ ~s.stray /\ Len(s.items) = Len(made) /\ \A k \in 1..Len(made) : ItemIs(s.items[k], made[k])
(* a document of printed measurements is one of the framework *)
Same == (o.esc /\ o.enc = NoneEnc /\ o.comp = NoneEnc) =>
          LET s == Wrapped(Printed(o)) IN Measurements(s) = <<[file |-> o.kind = "file", name |-> o.name, type |-> TypeOf(o), enc |-> NoneEnc, text |-> o.text]>>
NotEscaped == (~o.esc /\ o.text = B("a]]>")) => ~WellFormed(Wrapped(Printed(o)))
===============================================================================
