------------------------------ MODULE Base64MC ------------------------------
(* The coder reading texts, built up in all ways from representative        *)
(* characters, checked against the declarative definition of validity; and  *)
(* encoding of byte strings, built up in the same way, checked by decoding. *)
EXTENDS Base64
CONSTANTS Chars,      \* characters of the texts
          Octets,     \* bytes of the data
          MaxText, MaxData,
          Ignore
VARIABLES text, auto, data

vars == <<text, auto, data>>
Init == text = <<>> /\ auto = Start /\ data = <<>>

ReadNext == /\ Len(text) < MaxText /\ data = <<>>
            /\ \E c \in Chars : text' = Append(text, c) /\ auto' = ReadChar(auto, c, Ignore)
            /\ UNCHANGED data
AddOctet == /\ Len(data) < MaxData /\ text = <<>>
            /\ \E b \in Octets : data' = Append(data, b)
            /\ UNCHANGED <<text, auto>>
Next == ReadNext \/ AddOctet
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The definition: without spaces (and foreign characters if these are      *)
(* ignored) the text is a number of whole groups, then nothing, or one      *)
(* padded group after which anything may follow.                            *)
Kept(t) == SelectSeq(t, LAMBDA c : Class(c) = "data" \/ Class(c) = "pad" \/ (Class(c) = "foreign" /\ ~Ignore))
IsData(c) == Class(c) = "data"
GroupsTo(t, n) == \A i \in 1..n : IsData(t[i])
PaddedAt(t, n) == /\ n + 4 <= Len(t)
                  /\ IsData(t[n+1]) /\ IsData(t[n+2])
                  /\ Class(t[n+4]) = "pad"
                  /\ IsData(t[n+3]) \/ Class(t[n+3]) = "pad"
Declared(t) == LET k == Kept(t) IN
  \/ Len(k) % 4 = 0 /\ GroupsTo(k, Len(k))
  \/ \E m \in 0..(Len(k) \div 4) : GroupsTo(k, 4 * m) /\ PaddedAt(k, 4 * m)
DeclaredSize(t) == LET k == Kept(t) IN
  IF Len(k) % 4 = 0 /\ GroupsTo(k, Len(k)) THEN 3 * (Len(k) \div 4)
  ELSE LET m == CHOOSE m \in 0..(Len(k) \div 4) : GroupsTo(k, 4 * m) /\ PaddedAt(k, 4 * m)
       IN 3 * m + IF IsData(k[4*m+3]) THEN 2 ELSE 1

AutomatonIsDefinition == Accepts(auto) <=> Declared(text)
SizeIsDefinition == Accepts(auto) => Len(auto.out) = DeclaredSize(text)
IncrementalIsWhole == auto = Final(text, Ignore)
OctetsOnly == \A i \in 1..Len(auto.out) : auto.out[i] \in 0..255
(* the same data for every canonical text *)
Canonical == (Accepts(auto) /\ auto.mode = "read" /\ Kept(text) = text) => Encode(auto.out, FALSE) = text

RoundTrip == \A breaks \in BOOLEAN :
  LET e == Encode(data, breaks) IN
    /\ Valid(e, FALSE) /\ Decoded(e, FALSE) = data
    /\ \A i \in 1..Len(e) : e[i] = NL => breaks /\ i % (LineLength + 1) = 0 /\ i < Len(e)
    /\ \A i \in 1..Len(e) : e[i] = PadChar => i > Len(e) - 2
    /\ Len(SelectSeq(e, LAMBDA c : c # NL)) = 4 * Groups(data)
=============================================================================
