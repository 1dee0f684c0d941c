------------------------------- MODULE Bytes -------------------------------
(* Text is a sequence of bytes, that is of integers from 0 to 255.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
               31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
(* the bytes of a TLA+ string *)
B(s) == [i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]]

TAB == 9
NL  == 10
CR  == 13

Last1(s) == s[Len(s)]
Repeat(b, n) == [i \in 1..n |-> b]
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* the position of the last b in s, 0 when there is none, and of the first *)
LastPos(s, b)  == FoldLeftDomain(LAMBDA acc, i : IF s[i] = b THEN i ELSE acc, 0, s)
FirstPos(s, b) == FoldLeftDomain(LAMBDA acc, i : IF acc = 0 /\ s[i] = b THEN i ELSE acc, 0, s)

(* the pieces between the bytes b, always at least one *)
Split(s, b) ==
  LET r == FoldLeftDomain(LAMBDA a, i : IF s[i] = b
                                  THEN [from |-> i + 1, out |-> Append(a.out, SubSeq(s, a.from, i - 1))]
                                  ELSE a,
                    [from |-> 1, out |-> <<>>], s)
  IN  Append(r.out, SubSeq(s, r.from, Len(s)))
Join(ss, b) ==
  FoldLeftDomain(LAMBDA a, i : IF i = 1 THEN ss[1] ELSE a \o <<b>> \o ss[i], <<>>, ss)

(* decimal notation *)
RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecNat(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o DecNat(-n) ELSE DecNat(n)
IsDigit(b) == b >= 48 /\ b <= 57
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
NatOf(s) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, s)
============================================================================
