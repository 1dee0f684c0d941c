----------------------------- MODULE Base64Trace -----------------------------
(* Observed encodings (P18) and readings (P18, P19) against the coder.       *)
EXTENDS Base64, Observed

Enc == Answered /\ Ob.kind = "enc"
Rd  == Answered /\ Ob.kind = "dec"

(* P18 *)
OnlyTheAlphabet == Enc => LET breaks == Ob.nl = 1 IN
  \A i \in 1..Len(Ob.text) : \/ SixBits[Ob.text[i]] >= 0
                             \/ Ob.text[i] = PadChar /\ i > Len(Ob.text) - 2
                             \/ Ob.text[i] = NL /\ breaks
LineBreaks == Enc => Ob.text = Encode(Ob.data, Ob.nl = 1)
EncodingDecodes == Enc => Valid(Ob.text, FALSE) /\ Decoded(Ob.text, FALSE) = Ob.data
(* reading what was encoded: Ob.of is the data *)
ReadsBack == (Rd /\ Ob.src = "encoded") =>
  /\ Ob.is = Len(Ob.of) /\ Ob.dec = Len(Ob.of) /\ Ob.bytes = Ob.of
NothingBehind == (Rd /\ Ob.src = "encoded") => Ob.touched <= Len(Ob.of)

(* P19 *)
Ign == Ob.ign = 1
CheckIsRight == Rd => Ob.is = (IF Valid(Ob.text, Ign) THEN Len(Decoded(Ob.text, Ign)) ELSE 0)
DecoderAccepts == (Rd /\ Valid(Ob.text, Ign)) => Ob.dec = Len(Decoded(Ob.text, Ign)) /\ Ob.bytes = Decoded(Ob.text, Ign)
DecoderRefuses == (Rd /\ ~Valid(Ob.text, Ign)) => Ob.dec = -1
DecoderWritesNoMore == (Rd /\ Valid(Ob.text, Ign)) => Ob.touched <= Len(Decoded(Ob.text, Ign))
==============================================================================
