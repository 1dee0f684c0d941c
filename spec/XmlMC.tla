-------------------------------- MODULE XmlMC --------------------------------
(* Documents are read byte by byte: what has been read is the measurements   *)
(* which were written, in every style; no proper part of a document is one.  *)
EXTENDS XmlWrite
CONSTANT Large

Texts == {<<>>, <<97>>, B("<&>"), <<34, 39>>, <<NL>>, B("]]"), B("--"), B("&lt;"), B("a b"), <<TAB, 97>>, B("</output>"), <<CR, NL, 97>>} \cup
         (IF Large THEN {B("<a>"), B("&#65;"), B("&amp;amp;"), <<32>>, <<NL, NL>>, B("<![CDATA["), B("]>"), <<CR>>} ELSE {})
Names == {<<97>>, B("<\"'&>"), <<NL, 32, TAB>>, <<>>}
Kinds == {<<FALSE, PLAIN>>, <<TRUE, PLAIN>>}
Mes == {Mea(k[1], n, k[2], t) : k \in Kinds, n \in Names, t \in Texts}
Lists == {<<>>} \cup {<<m>> : m \in Mes} \cup {<<m, Mea(FALSE, <<98>>, B("text/string"), t)>> : m \in {x \in Mes : ~x.file}, t \in IF Large THEN Texts ELSE {<<>>, B("<&>")}}

VARIABLES ms, style, doc, s, k
vars == <<ms, style, doc, s, k>>
Init == /\ ms \in Lists /\ style \in 0..6
        /\ doc = (IF style = 5 THEN Document(ms) ELSE StyledDocument(ms, style))
        /\ s = Reader /\ k = 0
Next == /\ k < Len(doc)
        /\ k' = k + 1 /\ s' = ReadByte(s, doc[k + 1])
        /\ UNCHANGED <<ms, style, doc>>
Spec == Init /\ [][Next]_vars

ReadBack == k = Len(doc) => Usable(s) /\ Measurements(s) = ms /\ (style < 3 \/ style = 5 => ~s.stray)
Rest(t) == BlankText(t)
NoPart == (k < Len(doc) /\ ~Rest(Drop(doc, k))) => ~WellFormed(s)
NeverBad == s.m \notin {"bad", "unknown"}
(* what was read is never taken back *)
Monotone == [][StartsWith(s'.items, s.items)]_vars
View == <<ms, style, k>>
==============================================================================
