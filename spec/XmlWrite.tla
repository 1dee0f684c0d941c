------------------------------ MODULE XmlWrite ------------------------------
(* Documents with measurements, written in one of many equivalent ways.  A   *)
(* measurement is [file, name, type, enc, text].                             *)
EXTENDS XmlText

Mea(file, name, type, text) == [file |-> file, name |-> name, type |-> type, enc |-> NONE_, text |-> text]
RECURSIVE HexOf(_)
HexOf(n) == LET d == n % 16  c == IF d < 10 THEN 48 + d ELSE 87 + d IN
              IF n < 16 THEN <<c>> ELSE Append(HexOf(n \div 16), c)
CharRef(c) == B("&#") \o Dec(c) \o <<SEMI>>
HexRef(c) == B("&#x") \o HexOf(c) \o <<SEMI>>
Named(c) == CASE c = AMP -> B("&amp;") [] c = LT -> B("&lt;") [] c = GT -> B("&gt;") [] c = QUOT -> B("&quot;") [] c = APOS -> B("&apos;")
              [] OTHER -> CharRef(c)
Each(t, Op(_)) == FoldLeft(LAMBDA a, c : a \o Op(c), <<>>, t)

(* the style of the framework itself *)
EscText(t) == Each(t, LAMBDA c : IF c \in {AMP, LT, GT} THEN Named(c) ELSE IF c = CR THEN CharRef(c) ELSE <<c>>)
EscAttr(t) == Each(t, LAMBDA c : IF c \in {AMP, LT, GT, QUOT} THEN Named(c) ELSE IF c \in {TAB, NL, CR} THEN CharRef(c) ELSE <<c>>)
ElementOf(m) == IF m.file THEN DartMeasurementFile ELSE DartMeasurement
Written(m) == <<LT>> \o ElementOf(m) \o B(" name=\"") \o EscAttr(m.name) \o B("\" type=\"") \o EscAttr(m.type) \o <<QUOT>>
              \o (IF m.enc = NONE_ THEN <<>> ELSE B(" encoding=\"") \o EscAttr(m.enc) \o <<QUOT>>)
              \o <<GT>> \o EscText(m.text) \o B("</") \o ElementOf(m) \o <<GT>>
Declaration == B("<?xml version=\"1.0\" encoding=\"US-ASCII\"?>")
Document(ms) == Declaration \o <<NL>> \o B("<!-- created -->") \o <<NL>> \o B("<output>") \o <<NL>>
                \o FoldLeft(LAMBDA a, m : a \o Written(m) \o <<NL>>, <<>>, ms) \o B("</output>") \o <<NL>>

(* other styles, by number *)
InCdata(t) == B("<![CDATA[") \o Each(t, LAMBDA c : IF c = CR THEN B("]]>") \o CharRef(c) \o B("<![CDATA[") ELSE <<c>>) \o B("]]>")
TextIn(t, style) ==
  CASE style = 0 -> EscText(t)
    [] style = 1 -> Each(t, LAMBDA c : IF c = CR THEN CharRef(c) ELSE HexRef(c))
    [] style = 2 -> InCdata(t)
    [] style = 3 -> Each(t, LAMBDA c : IF c \in {AMP, LT, GT} THEN CharRef(c) ELSE IF c = CR THEN HexRef(c) ELSE <<c>> \o B("<!-- > -->"))
    [] style = 6 -> Each(t, LAMBDA c : CASE c = 97 -> B("&x;") [] c = NL -> B("&lines;") [] c = QUOT -> B("&_0;") [] c \in {AMP, LT, GT, CR} -> Named(c) [] OTHER -> <<c>>)
    [] OTHER -> Each(t, LAMBDA c : IF c \in {AMP, LT, GT, QUOT, APOS, CR} THEN Named(c) ELSE <<c>>) \o B("<?a b?>") \o InCdata(<<>>)
AttrIn(t, style) ==
  CASE style = 6 -> <<QUOT>> \o Each(t, LAMBDA c : CASE c = 97 -> B("&x;") [] c = 32 -> B("&lines;") [] c = QUOT -> B("&_0;") [] c \in {AMP, LT, GT} -> Named(c) [] c \in {TAB, NL, CR} -> CharRef(c) [] OTHER -> <<c>>) \o <<QUOT>>
    [] style = 0 -> <<QUOT>> \o EscAttr(t) \o <<QUOT>>
    [] style = 1 -> <<APOS>> \o Each(t, LAMBDA c : HexRef(c)) \o <<APOS>>
    [] OTHER -> <<APOS>> \o Each(t, LAMBDA c : IF c \in {AMP, LT, APOS} THEN Named(c) ELSE IF c < 32 THEN CharRef(c) ELSE <<c>>) \o <<APOS>>
Quotes(style) == IF style = 6 THEN 6 ELSE style % 3
Styled(m, style) ==
  LET n == NAME_ \o (IF style = 3 THEN B(" = ") ELSE <<EQ>>) \o AttrIn(m.name, Quotes(style))
      t == TYPE_ \o <<EQ>> \o AttrIn(m.type, Quotes(style))
      two == IF style % 2 = 0 THEN n \o <<32>> \o t ELSE t \o <<NL>> \o n
  IN  <<LT>> \o ElementOf(m) \o <<32>> \o two \o (IF style = 2 THEN <<32>> ELSE <<>>)
      \o (IF m.text = <<>> /\ style % 2 = 1 THEN B("/>")
          ELSE <<GT>> \o TextIn(m.text, style) \o B("</") \o ElementOf(m) \o (IF style = 4 THEN <<NL>> ELSE <<>>) \o <<GT>>)
Between(style) == CASE style = 0 -> <<NL>>
                    [] style = 1 -> <<>>
                    [] style = 2 -> B("<!-- <DartMeasurement name=\"x\" type=\"text/plain\">y</DartMeasurement> -->")
                    [] style = 3 -> B("<other a='b'>text</other>") \o <<CR, NL>>
                    [] OTHER -> B("<other><DartMeasurement name='x' type='text/plain'>y</DartMeasurement></other><?pi <a> ?>") \o <<TAB>>
(* texts with names; the first of a name counts *)
DocumentType == B("<!DOCTYPE output [<!ENTITY x 'a'> <!ENTITY lines '") \o <<NL>> \o B("'>") \o <<NL>> \o B("<!ENTITY _0 '\"' ><!ENTITY x \"b\">] >")
StyledDocument(ms, style) ==
  (IF style % 2 = 0 THEN Declaration ELSE <<>>) \o (IF style = 6 THEN DocumentType ELSE <<>>) \o B("<output>")
  \o FoldLeft(LAMBDA a, m : a \o Styled(m, style) \o Between(style), Between(style), ms) \o B("</output>")
=============================================================================
