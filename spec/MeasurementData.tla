--------------------------- MODULE MeasurementData ---------------------------
(* Measurement objects: a name, a type, an encoding, a compression, a text,  *)
(* and whether it is escaped when printed; the data is the text read by the  *)
(* encoding.                                                                 *)
EXTENDS Base64

NoneEnc == B("none")
B64Enc  == B("base64")
TypeName == [plain |-> B("text/plain"), string |-> B("text/string"), int |-> B("numeric/integer"), float |-> B("numeric/float"),
             double |-> B("numeric/double"), bool |-> B("numeric/boolean"), file |-> B("text/plain")]

Object(kind) == [kind |-> kind, name |-> <<>>, enc |-> NoneEnc, comp |-> NoneEnc, text |-> <<>>, esc |-> TRUE, ftype |-> B("text/plain")]

(* the data of a text; nothing else has a say in it *)
DataOf(enc, text) ==
  IF enc = B64Enc /\ Valid(text, FALSE) /\ Decoded(text, FALSE) # <<>> THEN Decoded(text, FALSE) ELSE text
Data(o) == DataOf(o.enc, o.text)
TextFor(enc, data) == IF enc = B64Enc THEN Encode(data, TRUE) ELSE data

(* operations on the objects, a function from their labels *)
SetName(o, n) == [o EXCEPT !.name = n]
SetText(o, t) == [o EXCEPT !.text = t]
SetEnc(o, e)  == IF o.kind = "file" THEN o ELSE [o EXCEPT !.enc = e]
SetComp(o, e) == IF o.kind = "file" THEN o ELSE [o EXCEPT !.comp = e]
SetType(o, t) == IF o.kind = "file" THEN [o EXCEPT !.ftype = t] ELSE o
SetEsc(o, b)  == [o EXCEPT !.esc = b]
(* which text is set for data is open with an encoding or compression which  *)
(* is not supported                                                          *)
Supported(o) == o.enc \in {NoneEnc, B64Enc} /\ o.comp = NoneEnc
TextsFor(o, d) == IF o.kind = "file" THEN {o.text}
                  ELSE IF Supported(o) THEN {TextFor(o.enc, d)} ELSE {o.text, d, TextFor(o.enc, d), <<>>}
SetData(o, d) == {[o EXCEPT !.text = t] : t \in TextsFor(o, d)}
Copied(o, p)  == IF o.kind = p.kind THEN p ELSE o

Equal(o, p) == o.name = p.name /\ TypeName[o.kind] = TypeName[p.kind] /\ Data(o) = Data(p)

(* numbers which are their own value: no superfluous digits *)
MINUS == 45  POINT == 46
Unsigned(t) == IF t # <<>> /\ Head(t) = MINUS THEN Tail(t) ELSE t
WholeNumber(t) == AllDigits(t) /\ (Len(t) = 1 \/ t[1] # 48)
CanonInt(t) == WholeNumber(Unsigned(t)) /\ (Unsigned(t) = <<48>> => t = <<48>>)
CanonReal(t, n) ==
  LET u == Unsigned(t)  p == Split(u, POINT) IN
    \/ CanonInt(t) /\ Len(u) < n
    \/ Len(p) = 2 /\ WholeNumber(p[1]) /\ AllDigits(p[2]) /\ Last1(p[2]) # 48 /\ Len(u) <= n
       /\ (p[1] = <<48>> => p[2][1] # 48)
Canon(o) == CASE o.kind = "int" -> CanonInt(o.text)
              [] o.kind = "float" -> CanonReal(o.text, 7)
              [] o.kind = "double" -> CanonReal(o.text, 15)
              [] o.kind = "bool" -> o.text \in {<<48>>, <<49>>}
              [] OTHER -> FALSE
=============================================================================
