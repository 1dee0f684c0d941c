------------------------------- MODULE Printing -------------------------------
(* A measurement object printed: an element of XML which reads as the object. *)
EXTENDS MeasurementData, XmlWrite

COMPRESSION_ == B("compression")
ElementName(o) == IF o.kind = "file" THEN DartMeasurementFile ELSE DartMeasurement
TypeOf(o) == IF o.kind = "file" THEN o.ftype ELSE TypeName[o.kind]
Writable(t) == \A k \in 1..Len(t) : LegalByte(t[k])
(* characters which are only themselves in a value, and in a text *)
NoMarkup(t) == \A k \in 1..Len(t) : t[k] \notin {AMP, LT, GT, QUOT, TAB, NL, CR}
PlainContent(t) == \A k \in 1..Len(t) : t[k] \notin {AMP, LT, GT, CR}
Values(o) == <<o.name, TypeOf(o)>> \o (IF o.kind = "file" THEN <<>> ELSE <<o.enc, o.comp>>)

(* what is printed, one of the ways *)
Printed(o) ==
  LET a(v) == IF o.esc THEN EscAttr(v) ELSE v
      one(n, v) == <<32>> \o n \o <<EQ, QUOT>> \o a(v) \o <<QUOT>>
      opt(n, v) == IF v = NoneEnc THEN <<>> ELSE one(n, v)
  IN  <<LT>> \o ElementName(o) \o one(NAME_, o.name) \o one(TYPE_, TypeOf(o))
      \o (IF o.kind = "file" THEN <<>> ELSE opt(ENCODING_, o.enc) \o opt(COMPRESSION_, o.comp))
      \o <<GT>> \o (IF o.esc THEN EscText(o.text) ELSE o.text) \o B("</") \o ElementName(o) \o <<GT>>

(* an element read is the object *)
ItemIs(it, o) ==
  /\ it.el = ElementName(o)
  /\ HasAttr(it, NAME_) /\ AttrOf(it, NAME_, <<>>) = o.name
  /\ HasAttr(it, TYPE_) /\ AttrOf(it, TYPE_, <<>>) = TypeOf(o)
  /\ AttrOf(it, ENCODING_, NoneEnc) = o.enc
  /\ AttrOf(it, COMPRESSION_, NoneEnc) = o.comp
  /\ \A k \in 1..Len(it.attrs) : it.attrs[k].n \in {NAME_, TYPE_, ENCODING_, COMPRESSION_}
  /\ it.text = o.text
ReadsAs(p, o) ==
  LET s == Wrapped(p) IN Usable(s) /\ ~s.stray /\ Len(s.items) = 1 /\ ItemIs(s.items[1], o)

(* without escape sequences the content is there as it is, after the start   *)
(* tag and before the end tag; the start tag reads as that of the object if  *)
(* its values need no escapes                                                *)
AsItIs(p, o) ==
  LET end == o.text \o B("</") \o ElementName(o) \o <<GT>>
      n == Len(p) - Len(end)
      rest(t) == t \o B("</") \o ElementName(o) \o <<GT>>
  IN  /\ n > 0 /\ Drop(p, n) = end
      /\ \A v \in Range(Values(o)) : v = NoneEnc \/ \E k \in 0..n - Len(v) : SubSeq(p, k + 1, k + Len(v)) = v
      /\ (\A v \in Range(Values(o)) : NoMarkup(v)) => ReadsAs(rest(SubSeq(p, 1, n)), [o EXCEPT !.text = <<>>])
PrintedRight(p, o) ==
  IF ~o.esc THEN AsItIs(p, o)
  ELSE ((\A v \in Range(Values(o)) : Writable(v)) /\ Writable(o.text)) => ReadsAs(p, o)
===============================================================================
