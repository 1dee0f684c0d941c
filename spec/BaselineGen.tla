----------------------------- MODULE BaselineGen -----------------------------
(* Documents in all styles, with the measurements they hold.                 *)
EXTENDS XmlWrite, Json, IOUtils
Strings == {<<>>, B("x"), B("<&>"), <<97, NL, 98>>, B("\"'"), B("]]"), B("--"), B("&lt;"), B(" a  "), <<TAB>>, B("</output>"), B("<![CDATA[x")}
Names == {B("n"), B("<\"'&>"), B("a b")}
One == {Mea(FALSE, n, t, c) : n \in Names, t \in {PLAIN, B("text/string")}, c \in Strings} \cup {Mea(TRUE, n, PLAIN, c) : n \in Names, c \in {B("f"), B("a b")}}
Few == {Mea(FALSE, B("n"), t, c) : t \in {PLAIN, B("text/string")}, c \in {<<>>, B("<&>"), <<97, NL, 98>>}}
Lists == {<<>>} \cup {<<m>> : m \in One} \cup {<<m, n>> : m, n \in Few} \cup (IF IOEnv.SIZE = "thorough" THEN {<<m, n, o>> : m, n, o \in Few} ELSE {})
VARIABLE x
Cases == {[d |-> StyledDocument(l, st), ms |-> l, style |-> st] : l \in Lists, st \in {0, 1, 2, 3, 4, 6}}
Init == x = 0 /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][FALSE]_x
==============================================================================
