------------------------------- MODULE Base64 -------------------------------
(* The base64 coder: the encoding as a function, the validity check and the *)
(* decoder as automata which read one character at a time.                  *)
EXTENDS Bytes, Bitwise

Alphabet == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
PadChar == 61
SixBits == [c \in 0..255 |-> IF \E k \in 1..64 : Alphabet[k] = c
                             THEN (CHOOSE k \in 1..64 : Alphabet[k] = c) - 1 ELSE -1]
(* what std::isspace takes as white space *)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Class(c) == IF SixBits[c] >= 0 THEN "data"
            ELSE IF c = PadChar THEN "pad"
            ELSE IF IsSpace(c) THEN "space" ELSE "foreign"

LineLength == 72

-----------------------------------------------------------------------------
(* Encoding *)
Group(x, k) ==      \* the k-th group of four characters, k from 1
  LET at(j) == IF 3 * (k - 1) + j <= Len(x) THEN x[3 * (k - 1) + j] ELSE 0
      n == IF Len(x) - 3 * (k - 1) >= 3 THEN 3 ELSE Len(x) - 3 * (k - 1)
      a == at(1)   b == at(2)   c == at(3)
      q == << a \div 4, (a % 4) * 16 + b \div 16, (b % 16) * 4 + c \div 64, c % 64 >>
  IN  [j \in 1..4 |-> IF j <= n + 1 THEN Alphabet[q[j] + 1] ELSE PadChar]

Groups(x) == (Len(x) + 2) \div 3
Plain(x) == LET g == [k \in 1..Groups(x) |-> Group(x, k)]
            IN  [i \in 1..4 * Groups(x) |-> g[1 + (i - 1) \div 4][1 + ((i - 1) % 4)]]
Encode(x, breaks) ==
  LET p == Plain(x)
      n == IF breaks /\ Len(p) > 0 THEN Len(p) + (Len(p) - 1) \div LineLength ELSE Len(p)
  IN  [i \in 1..n |-> IF ~breaks THEN p[i]
                      ELSE IF i % (LineLength + 1) = 0 THEN NL
                      ELSE p[i - i \div (LineLength + 1)]]

-----------------------------------------------------------------------------
(* The check and the decoder.  A state has the six-bit values of the        *)
(* unfinished group, the number of paddings in it, the bytes so far, and    *)
(* whether reading goes on, stopped after a padded group, or failed.        *)
Start == [mode |-> "read", quad |-> <<>>, pads |-> 0, out |-> <<>>]

Whole(q) == << q[1] * 4 + q[2] \div 16, (q[2] % 16) * 16 + q[3] \div 4, (q[3] % 4) * 64 + q[4] >>
Partial(q) == IF Len(q) = 2 THEN << q[1] * 4 + q[2] \div 16 >>
              ELSE << q[1] * 4 + q[2] \div 16, (q[2] % 16) * 16 + q[3] \div 4 >>

Fail(s) == [s EXCEPT !.mode = "fail"]

ReadChar(s, c, ignore) ==
  IF s.mode # "read" THEN s
  ELSE CASE Class(c) = "space" -> s
         [] Class(c) = "foreign" -> IF ignore THEN s ELSE Fail(s)
         [] Class(c) = "pad" ->
              IF Len(s.quad) < 2 THEN Fail(s)
              ELSE IF Len(s.quad) + s.pads + 1 = 4
                   THEN [s EXCEPT !.mode = "stop", !.out = s.out \o Partial(s.quad), !.quad = <<>>, !.pads = 0]
                   ELSE [s EXCEPT !.pads = s.pads + 1]
         [] Class(c) = "data" ->
              IF s.pads > 0 THEN Fail(s)
              ELSE IF Len(s.quad) = 3
                   THEN [s EXCEPT !.out = s.out \o Whole(Append(s.quad, SixBits[c])), !.quad = <<>>]
                   ELSE [s EXCEPT !.quad = Append(s.quad, SixBits[c])]

Final(t, ignore) == FoldLeft(LAMBDA s, c : ReadChar(s, c, ignore), Start, t)
Accepts(s) == s.mode # "fail" /\ s.quad = <<>> /\ s.pads = 0

(* what the operations return *)
Valid(t, ignore) == Accepts(Final(t, ignore))
Decoded(t, ignore) == Final(t, ignore).out
=============================================================================
