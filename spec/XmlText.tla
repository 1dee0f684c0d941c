------------------------------- MODULE XmlText -------------------------------
(* The part of XML the framework deals with, as an automaton which reads one *)
(* byte after the other: what the root element of a document holds, or that  *)
(* the document is not well formed.  The encoding is US-ASCII.  Of document  *)
(* type definitions, those which declare names for plain texts are known.    *)
EXTENDS Bytes

LT == 60  GT == 62  AMP == 38  QUOT == 34  APOS == 39  SLASH_ == 47  BANG == 33  QUEST == 63
EQ == 61  SEMI == 59  HASH == 35  LBR == 91  RBR == 93  DASH == 45
IsWs(c) == c = 32 \/ c = TAB \/ c = NL \/ c = CR
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
NameStart(c) == IsLetter(c) \/ c = 95 \/ c = 58
NameChar(c) == NameStart(c) \/ IsDigit(c) \/ c = DASH \/ c = 46
LegalByte(c) == c < 128 /\ (c >= 32 \/ c = TAB \/ c = NL \/ c = CR)
BlankText(t) == \A k \in 1..Len(t) : IsWs(t[k])

(* the byte sequences of the constants are computed once *)
CDATAOPEN == B("[CDATA[")
COMMENTOPEN == B("--")
DOCTYPE_ == B("DOCTYPE")
ENTITY_ == B("<!ENTITY")
EntAmp == B("amp")  EntLt == B("lt")  EntGt == B("gt")  EntQuot == B("quot")  EntApos == B("apos")
XmlTarget == B("xml")
Lower(t) == [k \in 1..Len(t) |-> IF t[k] >= 65 /\ t[k] <= 90 THEN t[k] + 32 ELSE t[k]]

-----------------------------------------------------------------------------
(* references *)
Utf8(n) == IF n < 128 THEN <<n>>
           ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
           ELSE IF n < 65536 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
           ELSE <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
LegalChar(n) == n \in {TAB, NL, CR} \/ (n >= 32 /\ n < 55296) \/ (n >= 57344 /\ n < 65534) \/ (n >= 65536 /\ n < 1114112)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Number(t, base) ==            \* -1 when it is none, or too large
  FoldLeft(LAMBDA n, c : LET v == HexVal(c) IN
                         IF n = -1 \/ v = -1 \/ v >= base THEN -1
                         ELSE IF n > 1114112 THEN 1114112 ELSE n * base + v, IF t = <<>> THEN -1 ELSE 0, t)
NoRef == [ok |-> FALSE, v |-> <<>>]
Predefined == {EntAmp, EntLt, EntGt, EntQuot, EntApos}
Declared(ents, t) == FoldLeft(LAMBDA r, e : IF r.ok \/ e.n # t THEN r ELSE [ok |-> TRUE, v |-> e.v], NoRef, ents)   \* the first counts
Reference(t, ents) ==
  LET char(n) == IF n >= 0 /\ LegalChar(n) THEN [ok |-> TRUE, v |-> Utf8(n)] ELSE NoRef IN
  CASE t = EntAmp -> [ok |-> TRUE, v |-> <<AMP>>]
    [] t = EntLt -> [ok |-> TRUE, v |-> <<LT>>]
    [] t = EntGt -> [ok |-> TRUE, v |-> <<GT>>]
    [] t = EntQuot -> [ok |-> TRUE, v |-> <<QUOT>>]
    [] t = EntApos -> [ok |-> TRUE, v |-> <<APOS>>]
    [] Len(t) > 1 /\ t[1] = HASH /\ t[2] # 120 -> char(Number(Drop(t, 1), 10))
    [] Len(t) > 2 /\ t[1] = HASH /\ t[2] = 120 -> char(Number(Drop(t, 2), 16))
    [] OTHER -> Declared(ents, t)

(* spaces of a text with a name which is in the value of an attribute *)
Blanks(t) == [k \in 1..Len(t) |-> IF IsWs(t[k]) THEN 32 ELSE t[k]]

(* the declarations which are known to be right *)
Unquoted(t) == SelectSeq([k \in 1..Len(t) |-> IF t[k] = APOS THEN QUOT ELSE t[k]], LAMBDA c : ~IsWs(c))
Version1 == B("version=\"1.0\"")
Declarations == {Version1, Version1 \o B("encoding=\"US-ASCII\""), Version1 \o B("encoding=\"UTF-8\""),
                 Version1 \o B("standalone=\"yes\""), Version1 \o B("encoding=\"US-ASCII\"standalone=\"yes\"")}
KnownDeclaration(t) == Unquoted(t) \in Declarations

-----------------------------------------------------------------------------
(* state of the reader:                                                      *)
(*   m      what is being read                                               *)
(*   open   the names of the open elements                                   *)
(*   root   "none", "open" or "closed"                                       *)
(*   acc    a name, or the characters of what is being recognised            *)
(*   el, attrs, an, q, sp   of the start tag being read                      *)
(*   n      number of the last special characters in a row                   *)
(*   text   the text of the child of the root being read                     *)
(*   back, val   where a reference returns to, with the value so far          *)
(*   child  the child of the root being read; items: those read              *)
(*   stray  there is text directly in the root                               *)
(*   deep   a child of the root has elements                                 *)
(*   dt     there was a document type; ents: the texts it names              *)
(*   at     number of bytes read                                             *)
NoChild == [el |-> <<>>, attrs |-> <<>>, text |-> <<>>, deep |-> FALSE]
Reader == [m |-> "misc", open |-> <<>>, root |-> "none", acc |-> <<>>, el |-> <<>>, attrs |-> <<>>, an |-> <<>>, q |-> 0, sp |-> FALSE,
           n |-> 0, text |-> <<>>, back |-> "", val |-> <<>>, child |-> NoChild, items |-> <<>>, stray |-> FALSE, dt |-> FALSE, ents |-> <<>>, at |-> 0, cr |-> FALSE]

Bad(s) == [s EXCEPT !.m = "bad"]
Depth(s) == Len(s.open)
Inside(s) == IF s.open = <<>> THEN "misc" ELSE "text"
AddText(s, t) == IF Depth(s) = 2 THEN [s EXCEPT !.text = @ \o t]
                 ELSE IF Depth(s) = 1 /\ ~BlankText(t) THEN [s EXCEPT !.stray = TRUE] ELSE s

Close(s) ==          \* the innermost open element ends
  LET t == [s EXCEPT !.open = Front(@), !.m = IF Depth(s) = 1 THEN "misc" ELSE "text", !.n = 0] IN
    IF Depth(s) = 1 THEN [t EXCEPT !.root = "closed"]
    ELSE IF Depth(s) = 2 THEN [t EXCEPT !.items = Append(@, [s.child EXCEPT !.text = s.text]), !.child = NoChild, !.text = <<>>]
    ELSE t
Open(s) ==           \* the start tag is complete
  LET t == [s EXCEPT !.open = Append(@, s.el), !.m = "text", !.n = 0] IN
    IF Depth(s) = 0 THEN [t EXCEPT !.root = "open"]
    ELSE IF Depth(s) = 1 THEN [t EXCEPT !.child = [el |-> s.el, attrs |-> s.attrs, text |-> <<>>, deep |-> FALSE], !.text = <<>>]
    ELSE [t EXCEPT !.child.deep = TRUE]

Step(s, c) ==
  CASE s.m = "bad" -> s
    [] s.m = "unknown" -> s
    [] s.m = "misc" -> IF IsWs(c) THEN s ELSE IF c = LT THEN [s EXCEPT !.m = "lt"] ELSE Bad(s)
    [] s.m = "text" ->
         IF c = LT THEN [s EXCEPT !.m = "lt", !.n = 0]
         ELSE IF c = AMP THEN [s EXCEPT !.m = "ref", !.acc = <<>>, !.back = "text", !.n = 0]
         ELSE IF c = GT /\ s.n >= 2 THEN Bad(s)
         ELSE AddText([s EXCEPT !.n = IF c = RBR THEN @ + 1 ELSE 0], <<c>>)
    [] s.m = "lt" ->
         IF c = SLASH_ THEN (IF s.open = <<>> THEN Bad(s) ELSE [s EXCEPT !.m = "etag", !.acc = <<>>])
         ELSE IF c = BANG THEN [s EXCEPT !.m = "bang", !.acc = <<>>]
         ELSE IF c = QUEST THEN [s EXCEPT !.m = "target", !.acc = <<>>, !.sp = s.at = 1]
         ELSE IF NameStart(c) /\ (s.open # <<>> \/ s.root = "none")
              THEN [s EXCEPT !.m = "stag", !.acc = <<c>>, !.attrs = <<>>]
         ELSE Bad(s)
    [] s.m = "bang" ->
         LET a == Append(s.acc, c) IN
           IF a = COMMENTOPEN THEN [s EXCEPT !.m = "comment", !.n = 0]
           ELSE IF a = CDATAOPEN THEN (IF s.open = <<>> THEN Bad(s) ELSE [s EXCEPT !.m = "cdata", !.n = 0])
           ELSE IF StartsWith(COMMENTOPEN, a) \/ StartsWith(CDATAOPEN, a) THEN [s EXCEPT !.acc = a]
           ELSE IF c = 68 /\ Len(a) = 1 /\ s.root = "none" /\ ~s.dt THEN [s EXCEPT !.m = "dtd", !.dt = TRUE, !.acc = a]
           ELSE Bad(s)
    (* <!DOCTYPE name [ <!ENTITY name "text"> ... ]>; of other document types it is not known what they are *)
    [] s.m = "dtd" ->
         IF Len(s.acc) < 7 THEN (IF c = DOCTYPE_[Len(s.acc) + 1] THEN [s EXCEPT !.acc = Append(@, c)] ELSE Bad(s))
         ELSE IF IsWs(c) THEN [s EXCEPT !.m = "dtname", !.acc = <<>>] ELSE Bad(s)
    [] s.m = "dtname" ->
         IF IsWs(c) THEN (IF s.acc = <<>> THEN s ELSE [s EXCEPT !.m = "dtsub"])
         ELSE IF NameChar(c) /\ (s.acc # <<>> \/ NameStart(c)) THEN [s EXCEPT !.acc = Append(@, c)]
         ELSE IF s.acc = <<>> THEN Bad(s)
         ELSE IF c = LBR THEN [s EXCEPT !.m = "dtdecl"] ELSE IF c = GT THEN [s EXCEPT !.m = "misc"] ELSE Bad(s)
    [] s.m = "dtsub" ->
         IF IsWs(c) THEN s ELSE IF c = LBR THEN [s EXCEPT !.m = "dtdecl"] ELSE IF c = GT THEN [s EXCEPT !.m = "misc"]
         ELSE [s EXCEPT !.m = "unknown"]
    [] s.m = "dtdecl" ->
         IF IsWs(c) THEN s ELSE IF c = RBR THEN [s EXCEPT !.m = "dtend"]
         ELSE IF c = LT THEN [s EXCEPT !.m = "dtopen", !.acc = <<c>>] ELSE [s EXCEPT !.m = "unknown"]
    [] s.m = "dtopen" ->
         IF Len(s.acc) < 8 THEN (IF c = ENTITY_[Len(s.acc) + 1] THEN [s EXCEPT !.acc = Append(@, c)] ELSE [s EXCEPT !.m = "unknown"])
         ELSE IF IsWs(c) THEN [s EXCEPT !.m = "dtent", !.acc = <<>>] ELSE Bad(s)
    [] s.m = "dtent" ->
         IF IsWs(c) THEN (IF s.acc = <<>> THEN s ELSE [s EXCEPT !.m = IF s.acc \in Predefined THEN "unknown" ELSE "dtquot", !.an = s.acc])
         ELSE IF NameChar(c) /\ (s.acc # <<>> \/ NameStart(c)) THEN [s EXCEPT !.acc = Append(@, c)]
         ELSE [s EXCEPT !.m = "unknown"]
    [] s.m = "dtquot" ->
         IF IsWs(c) THEN s ELSE IF c \in {QUOT, APOS} THEN [s EXCEPT !.m = "dtval", !.q = c, !.acc = <<>>] ELSE [s EXCEPT !.m = "unknown"]
    [] s.m = "dtval" ->
         IF c = s.q THEN [s EXCEPT !.m = "dtclose", !.ents = Append(@, [n |-> s.an, v |-> s.acc])]
         ELSE IF c \in {AMP, LT, RBR, 37} THEN [s EXCEPT !.m = "unknown"]     \* more than a plain text
         ELSE [s EXCEPT !.acc = Append(@, c)]
    [] s.m = "dtclose" -> IF IsWs(c) THEN s ELSE IF c = GT THEN [s EXCEPT !.m = "dtdecl"] ELSE [s EXCEPT !.m = "unknown"]
    [] s.m = "dtend" -> IF IsWs(c) THEN s ELSE IF c = GT THEN [s EXCEPT !.m = "misc"] ELSE Bad(s)
    [] s.m = "comment" ->
         IF s.n >= 2 THEN (IF c = GT THEN [s EXCEPT !.m = Inside(s), !.n = 0] ELSE Bad(s))
         ELSE [s EXCEPT !.n = IF c = DASH THEN @ + 1 ELSE 0]
    [] s.m = "cdata" ->
         IF c = RBR THEN [s EXCEPT !.n = @ + 1]
         ELSE IF c = GT /\ s.n >= 2 THEN AddText([s EXCEPT !.m = "text", !.n = 0], Repeat(RBR, s.n - 2))
         ELSE AddText([s EXCEPT !.n = 0], Append(Repeat(RBR, s.n), c))
    [] s.m = "target" ->                  \* sp: at the beginning of the document
         IF NameChar(c) /\ (s.acc # <<>> \/ NameStart(c)) THEN [s EXCEPT !.acc = Append(@, c)]
         ELSE IF s.acc = <<>> THEN Bad(s)
         ELSE IF Lower(s.acc) = XmlTarget
              THEN (IF s.acc = XmlTarget /\ s.sp /\ IsWs(c) THEN [s EXCEPT !.m = "decl", !.acc = <<c>>, !.n = 0] ELSE Bad(s))
         ELSE IF c = QUEST THEN [s EXCEPT !.m = "piend"]
         ELSE IF IsWs(c) THEN [s EXCEPT !.m = "pi", !.n = 0] ELSE Bad(s)
    [] s.m = "piend" -> IF c = GT THEN [s EXCEPT !.m = Inside(s), !.n = 0] ELSE Bad(s)
    [] s.m = "pi" ->
         IF c = GT /\ s.n = 1 THEN [s EXCEPT !.m = Inside(s), !.n = 0]
         ELSE [s EXCEPT !.n = IF c = QUEST THEN 1 ELSE 0]
    [] s.m = "decl" ->
         IF c = QUEST THEN [s EXCEPT !.m = "declend"] ELSE [s EXCEPT !.acc = Append(@, c)]
    [] s.m = "declend" -> IF c # GT THEN Bad(s) ELSE IF KnownDeclaration(s.acc) THEN [s EXCEPT !.m = "misc"] ELSE [s EXCEPT !.m = "unknown"]
    [] s.m = "stag" ->
         IF NameChar(c) THEN [s EXCEPT !.acc = Append(@, c)]
         ELSE LET t == [s EXCEPT !.el = s.acc] IN
              IF c = GT THEN Open(t)
              ELSE IF c = SLASH_ THEN [t EXCEPT !.m = "empty"]
              ELSE IF IsWs(c) THEN [t EXCEPT !.m = "attrs", !.sp = TRUE] ELSE Bad(s)
    [] s.m = "attrs" ->
         IF IsWs(c) THEN [s EXCEPT !.sp = TRUE]
         ELSE IF c = GT THEN Open(s)
         ELSE IF c = SLASH_ THEN [s EXCEPT !.m = "empty"]
         ELSE IF NameStart(c) /\ s.sp THEN [s EXCEPT !.m = "an", !.acc = <<c>>] ELSE Bad(s)
    [] s.m = "an" ->
         IF NameChar(c) THEN [s EXCEPT !.acc = Append(@, c)]
         ELSE IF c = EQ THEN [s EXCEPT !.m = "eq", !.an = s.acc]
         ELSE IF IsWs(c) THEN [s EXCEPT !.m = "an2", !.an = s.acc] ELSE Bad(s)
    [] s.m = "an2" -> IF IsWs(c) THEN s ELSE IF c = EQ THEN [s EXCEPT !.m = "eq"] ELSE Bad(s)
    [] s.m = "eq" -> IF IsWs(c) THEN s
                     ELSE IF c \in {QUOT, APOS} THEN [s EXCEPT !.m = "av", !.q = c, !.acc = <<>>] ELSE Bad(s)
    [] s.m = "av" ->
         IF c = s.q THEN (IF \E k \in 1..Len(s.attrs) : s.attrs[k].n = s.an THEN Bad(s)
                          ELSE [s EXCEPT !.m = "attrs", !.sp = FALSE, !.attrs = Append(@, [n |-> s.an, v |-> s.acc])])
         ELSE IF c = LT THEN Bad(s)
         ELSE IF c = AMP THEN [s EXCEPT !.m = "ref", !.back = "av", !.val = s.acc, !.acc = <<>>]
         ELSE [s EXCEPT !.acc = Append(@, IF IsWs(c) THEN 32 ELSE c)]
    [] s.m = "ref" ->                     \* val keeps the value so far
         IF c = SEMI
         THEN LET r == Reference(s.acc, s.ents) IN
              IF ~r.ok THEN Bad(s)
              ELSE IF s.back = "text" THEN AddText([s EXCEPT !.m = "text"], r.v)
              ELSE [s EXCEPT !.m = "av", !.acc = s.val \o (IF s.acc[1] = HASH THEN r.v ELSE Blanks(r.v))]
         ELSE IF c = LT \/ c = AMP \/ IsWs(c) THEN Bad(s)
         ELSE [s EXCEPT !.acc = Append(@, c)]
    [] s.m = "empty" -> IF c = GT THEN Close(Open(s)) ELSE Bad(s)
    [] s.m = "etag" ->
         IF NameChar(c) THEN [s EXCEPT !.acc = Append(@, c)]
         ELSE IF c = GT THEN (IF s.acc = Last1(s.open) THEN Close(s) ELSE Bad(s))
         ELSE IF IsWs(c) THEN (IF s.acc = Last1(s.open) THEN [s EXCEPT !.m = "etag2"] ELSE Bad(s)) ELSE Bad(s)
    [] s.m = "etag2" -> IF c = GT THEN Close(s) ELSE IF IsWs(c) THEN s ELSE Bad(s)
    [] OTHER -> Bad(s)

(* line breaks of all kinds are read as one line feed *)
ReadByte(s, c) ==
  LET t == IF ~LegalByte(c) THEN (IF s.m = "unknown" THEN s ELSE Bad(s))
           ELSE IF c = NL /\ s.cr THEN s
           ELSE Step(s, IF c = CR THEN NL ELSE c)
  IN  [t EXCEPT !.at = @ + 1, !.cr = c = CR]
ReadOn(s, bytes) == FoldLeft(ReadByte, s, bytes)
Read(doc) == ReadOn(Reader, doc)
WellFormed(s) == s.m = "misc" /\ s.root = "closed"
Unknown(s) == s.m = "unknown"

-----------------------------------------------------------------------------
(* what the framework takes from a document *)
DartMeasurement == B("DartMeasurement")
DartMeasurementFile == B("DartMeasurementFile")
NAME_ == B("name")  TYPE_ == B("type")  ENCODING_ == B("encoding")
HasAttr(it, a) == \E k \in 1..Len(it.attrs) : it.attrs[k].n = a
Attr(it, a, default) == IF HasAttr(it, a) THEN (CHOOSE k \in 1..Len(it.attrs) : it.attrs[k].n = a) ELSE 0
AttrOf(it, a, default) == IF HasAttr(it, a) THEN it.attrs[Attr(it, a, default)].v ELSE default
IsMeasurement(it) == it.el \in {DartMeasurement, DartMeasurementFile}
PLAIN == B("text/plain")  NONE_ == B("none")  UNKNOWNNAME == B("unknown")
KnownTypes == {B("text/plain"), B("text/string"), B("numeric/integer"), B("numeric/float"), B("numeric/double"), B("numeric/boolean")}
AsMeasurement(it) ==
  LET file == it.el = DartMeasurementFile
      ty == AttrOf(it, TYPE_, PLAIN)
  IN  [file |-> file, name |-> AttrOf(it, NAME_, IF file THEN UNKNOWNNAME ELSE <<>>),
       type |-> IF file \/ ty \in KnownTypes THEN ty ELSE PLAIN,
       enc |-> AttrOf(it, ENCODING_, NONE_), text |-> it.text]
Measurements(s) == LET ms == SelectSeq(s.items, IsMeasurement) IN [k \in 1..Len(ms) |-> AsMeasurement(ms[k])]
(* elements in a measurement are an error *)
Usable(s) == WellFormed(s) /\ \A k \in 1..Len(s.items) : IsMeasurement(s.items[k]) => ~s.items[k].deep

(* a part of a document, as the content of a root of its own *)
Wrapped(t) == Read(B("<o>") \o t \o B("</o>"))
=============================================================================
