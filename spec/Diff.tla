-------------------------------- MODULE Diff --------------------------------
(* Line differences: a script of commands turns the lines of one text into   *)
(* those of another.                                                         *)
EXTENDS Bytes

Lines(s) == Split(s, NL)          \* what follows the last line break is a line

(* a command: d lines are removed behind line l0 of the first text, and the  *)
(* i lines behind line l1 of the second come in their place; del and ins are *)
(* the lines it shows                                                        *)
Command(l0, d, l1, i, del, ins) == [l0 |-> l0, d |-> d, l1 |-> l1, i |-> i, del |-> del, ins |-> ins]

-----------------------------------------------------------------------------
(* the script is applied to A one command after the other; a command which   *)
(* cannot be applied makes it impossible                                     *)
Impossible == [ok |-> FALSE, at |-> 0, out |-> <<>>]
ApplyOne(A, s, c) ==
  IF ~s.ok \/ c.l0 < s.at \/ c.l0 + c.d > Len(A) \/ SubSeq(A, c.l0 + 1, c.l0 + c.d) # c.del THEN Impossible
  ELSE LET kept == s.out \o SubSeq(A, s.at + 1, c.l0) IN
       IF Len(kept) # c.l1 THEN Impossible      \* it says where it stands in the second text, too
       ELSE [ok |-> TRUE, at |-> c.l0 + c.d, out |-> kept \o c.ins]
Apply(A, script) ==
  LET r == FoldLeft(LAMBDA s, c : ApplyOne(A, s, c), [ok |-> TRUE, at |-> 0, out |-> <<>>], script)
  IN  IF r.ok THEN [ok |-> TRUE, out |-> r.out \o SubSeq(A, r.at + 1, Len(A))] ELSE [ok |-> FALSE, out |-> <<>>]

Complete(c) == c.d + c.i > 0 /\ Len(c.del) = c.d /\ Len(c.ins) = c.i
Apart(script) == \A k \in 1..(Len(script) - 1) : script[k].l0 + script[k].d < script[k + 1].l0
                                              /\ script[k].l1 + script[k].i < script[k + 1].l1
Cost(script) == FoldLeft(LAMBDA n, c : n + c.d + c.i, 0, script)

(* the longest common subsequence, row by row *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
NextRow(row, x, Y) ==
  FoldLeftDomain(LAMBDA new, j : Append(new, IF x = Y[j] THEN (IF j = 1 THEN 0 ELSE row[j - 1]) + 1
                                            ELSE Max2(row[j], IF j = 1 THEN 0 ELSE new[j - 1])), <<>>, Y)
LcsRows(X, Y) == FoldLeft(LAMBDA rows, x : Append(rows, NextRow(Last1(rows), x, Y)), <<[j \in 1..Len(Y) |-> 0]>>, X)
Lcs(X, Y) == IF Y = <<>> THEN 0 ELSE
  Last1(FoldLeft(LAMBDA row, x : NextRow(row, x, Y), [j \in 1..Len(Y) |-> 0], X))
(* without what is equal at both ends, which never makes it less than it is  *)
Prefix(X, Y) == LET n == Min2(Len(X), Len(Y)) IN
  FoldLeftDomain(LAMBDA p, i : IF p = i - 1 /\ i <= n /\ X[i] = Y[i] THEN i ELSE p, 0, X)
Suffix(X, Y, p) == LET n == Min2(Len(X), Len(Y)) - p IN
  FoldLeftDomain(LAMBDA q, i : IF q = i - 1 /\ i <= n /\ X[Len(X) - q] = Y[Len(Y) - q] THEN i ELSE q, 0, X)
LeastCost(X, Y) ==
  LET p == Prefix(X, Y)
      s == Suffix(X, Y, p)
      XX == SubSeq(X, p + 1, Len(X) - s)
      YY == SubSeq(Y, p + 1, Len(Y) - s)
  IN  Len(XX) + Len(YY) - 2 * Lcs(XX, YY)

Correct(A, Bb, script) ==
  /\ \A k \in 1..Len(script) : Complete(script[k])
  /\ Apply(A, script) = [ok |-> TRUE, out |-> Bb]
  /\ Apart(script)
  /\ Cost(script) = LeastCost(A, Bb)

-----------------------------------------------------------------------------
(* the written form *)
CA == 97  CC == 99  CD == 100  COMMA == 44
LineRange(from, n) == IF n > 1 THEN Dec(from) \o <<COMMA>> \o Dec(from + n - 1) ELSE Dec(from)
Shown(mark, ls) == FoldLeft(LAMBDA t, l : t \o <<mark, 32>> \o l \o <<NL>>, <<>>, ls)
Written(c) ==
  IF c.d > 0 /\ c.i > 0 THEN LineRange(c.l0 + 1, c.d) \o <<CC>> \o LineRange(c.l1 + 1, c.i) \o <<NL>>
                             \o Shown(60, c.del) \o B("----") \o <<NL>> \o Shown(62, c.ins)
  ELSE IF c.i > 0 THEN Dec(c.l0) \o <<CA>> \o LineRange(c.l1 + 1, c.i) \o <<NL>> \o Shown(62, c.ins)
  ELSE LineRange(c.l0 + 1, c.d) \o <<CD>> \o Dec(c.l1 + 1) \o <<NL>> \o Shown(60, c.del)
WrittenScript(script) == FoldLeft(LAMBDA t, c : t \o Written(c), <<>>, script)

(* and its reading; a text which is not a script has no commands and is not ok *)
NoRange == [ok |-> FALSE, from |-> 0, n |-> 0]
ReadRange(t) ==
  LET p == Split(t, COMMA) IN
    IF Len(p) > 2 \/ ~(\A k \in 1..Len(p) : AllDigits(p[k]) /\ Len(p[k]) < 9) THEN NoRange
    ELSE IF Len(p) = 1 THEN [ok |-> TRUE, from |-> NatOf(p[1]), n |-> 1]
    ELSE IF NatOf(p[2]) > NatOf(p[1]) THEN [ok |-> TRUE, from |-> NatOf(p[1]), n |-> NatOf(p[2]) - NatOf(p[1]) + 1]
    ELSE NoRange
Letter(h) == FoldLeftDomain(LAMBDA a, k : IF h[k] \in {CA, CC, CD} /\ a = 0 THEN k ELSE a, 0, h)
Marked(ls, mark) == \A k \in 1..Len(ls) : Len(ls[k]) >= 2 /\ ls[k][1] = mark /\ ls[k][2] = 32
Unmarked(ls) == [k \in 1..Len(ls) |-> Drop(ls[k], 2)]
NoScript == [ok |-> FALSE, script |-> <<>>]
RECURSIVE ReadFrom(_, _, _)
ReadFrom(out, at, script) ==
  IF at > Len(out) THEN [ok |-> TRUE, script |-> script]
  ELSE LET h == out[at]
           k == Letter(h)
           a == IF k = 0 THEN NoRange ELSE ReadRange(SubSeq(h, 1, k - 1))
           b == IF k = 0 THEN NoRange ELSE ReadRange(Drop(h, k))
       IN  IF ~a.ok \/ ~b.ok THEN NoScript
           ELSE IF h[k] = CC THEN
             IF at + a.n + b.n + 1 > Len(out) THEN NoScript
             ELSE LET del == SubSeq(out, at + 1, at + a.n)
                      ins == SubSeq(out, at + a.n + 2, at + a.n + b.n + 1)
                  IN IF a.from = 0 \/ b.from = 0 \/ out[at + a.n + 1] # B("----") \/ ~Marked(del, 60) \/ ~Marked(ins, 62) THEN NoScript
                     ELSE ReadFrom(out, at + a.n + b.n + 2, Append(script, Command(a.from - 1, a.n, b.from - 1, b.n, Unmarked(del), Unmarked(ins))))
           ELSE IF h[k] = CA THEN
             IF at + b.n > Len(out) \/ a.n # 1 \/ b.from = 0 THEN NoScript
             ELSE LET ins == SubSeq(out, at + 1, at + b.n) IN
                  IF ~Marked(ins, 62) THEN NoScript
                  ELSE ReadFrom(out, at + b.n + 1, Append(script, Command(a.from, 0, b.from - 1, b.n, <<>>, Unmarked(ins))))
           ELSE IF at + a.n > Len(out) \/ b.n # 1 \/ a.from = 0 \/ b.from = 0 THEN NoScript
             ELSE LET del == SubSeq(out, at + 1, at + a.n) IN
                  IF ~Marked(del, 60) THEN NoScript
                  ELSE ReadFrom(out, at + a.n + 1, Append(script, Command(a.from - 1, a.n, b.from - 1, 0, Unmarked(del), <<>>)))
ReadScript(text) ==
  IF text = <<>> THEN [ok |-> TRUE, script |-> <<>>]
  ELSE IF Last1(text) # NL THEN NoScript
  ELSE ReadFrom(Lines(Front(text)), 1, <<>>)

(* the difference of the texts s and t may be written as out *)
IsDiff(s, t, out) ==
  LET r == ReadScript(out) IN
    /\ r.ok
    /\ (out = <<>> <=> s = t)
    /\ Correct(Lines(s), Lines(t), r.script)

-----------------------------------------------------------------------------
(* a correct script, from the rows: backwards from the ends                  *)
RECURSIVE Back(_, _, _, _, _, _)
Back(X, Y, rows, i, j, script) ==      \* script: commands behind i and j
  LET At(a, b) == IF b = 0 THEN 0 ELSE rows[a + 1][b]
      Grow(di, dj) ==
        LET c == Head(script)
            new == Command(i - di, di, j - dj, dj, SubSeq(X, i - di + 1, i), SubSeq(Y, j - dj + 1, j))
        IN  IF script # <<>> /\ c.l0 = i /\ c.l1 = j
            THEN <<Command(new.l0, new.d + c.d, new.l1, new.i + c.i, new.del \o c.del, new.ins \o c.ins)>> \o Tail(script)
            ELSE <<new>> \o script
  IN  IF i = 0 /\ j = 0 THEN script
      ELSE IF i > 0 /\ j > 0 /\ X[i] = Y[j] THEN Back(X, Y, rows, i - 1, j - 1, script)
      ELSE IF j > 0 /\ (i = 0 \/ At(i, j - 1) >= At(i - 1, j)) THEN Back(X, Y, rows, i, j - 1, Grow(0, 1))
      ELSE Back(X, Y, rows, i - 1, j, Grow(1, 0))
Script(X, Y) == Back(X, Y, LcsRows(X, Y), Len(X), Len(Y), <<>>)
=============================================================================
