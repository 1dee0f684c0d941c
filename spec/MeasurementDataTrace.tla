------------------------- MODULE MeasurementDataTrace -------------------------
(* Observed histories of measurement objects (P20), replayed step by step.   *)
EXTENDS Printing, Observed

Ob_(s, l) == s.o[l]
Q(s) == Ob.obs[s.n]
Blank(t) == \A k \in 1..Len(t) : IsSpace(t[k])
After(s, st) ==
  LET l == st.l
      set(v) == [s EXCEPT !.o = (l :> v) @@ s.o]
  IN CASE st.op = "new"  -> set(Object(st.kind))
       [] st.op = "free" -> [s EXCEPT !.o = [m \in DOMAIN s.o \ {l} |-> s.o[m]]]
       [] st.op = "name" -> set(SetName(s.o[l], st.v))
       [] st.op = "text" -> set(SetText(s.o[l], st.v))
       [] st.op = "enc"  -> set(SetEnc(s.o[l], st.v))
       [] st.op = "data" -> set(SetText(s.o[l], IF s.o[l].kind = "file" THEN s.o[l].text ELSE Q(s).t))
       [] st.op = "comp" -> set(SetComp(s.o[l], st.v))
       [] st.op = "ftype" -> set(SetType(s.o[l], st.v))
       [] st.op = "esc"  -> set(SetEsc(s.o[l], st.v = <<49>>))
       [] st.op = "setval" -> set(SetText(s.o[l], st.v))
       [] st.op = "copy" -> set(s.o[st.from])      \* an object made as a copy
       [] st.op = "asg"  -> set(Copied(s.o[l], s.o[st.from]))
       [] OTHER -> s
Answer(s, st) ==
  LET o == s.o[st.l] IN
  CASE st.op = "data" -> Q(s).t \in TextsFor(o, st.v)
    [] st.op = "gt" -> Q(s).t = o.text
    [] st.op \in {"gd", "gp"} -> (o.kind = "file" \/ Q(s).d = Data(o) \/ (o.enc = B64Enc /\ Blank(o.text) /\ Q(s).d = <<>>))
    [] st.op = "eq" -> Q(s).e = 1 <=> Equal(o, s.o[st.from])
    [] st.op = "attr" -> Q(s).n = o.name /\ Q(s).ty = TypeOf(o) /\ (o.kind # "file" => Q(s).enc = o.enc /\ Q(s).comp = o.comp)
    [] st.op = "print" -> PrintedRight(Q(s).p, o)
    [] st.op = "esc" -> Q(s).esc = 1 <=> st.v = <<49>>
    [] st.op = "getval" -> Canon(o) => Q(s).v = o.text
    [] OTHER -> TRUE
Replay == FoldLeft(LAMBDA s, st : [After(s, st) EXCEPT !.bad = IF s.bad = 0 /\ ~Answer(s, st) THEN s.n ELSE s.bad, !.n = s.n + 1],
                   [o |-> <<>>, bad |-> 0, n |-> 1], Ob.steps)
Alias == [from |-> from, off |-> off,
          step |-> IF Answered /\ Replay.bad > 0 THEN Ob.steps[Replay.bad] ELSE <<>>,
          obs |-> IF Answered /\ Replay.bad > 0 THEN Ob.obs[Replay.bad] ELSE <<>>]
AllAnswersRight == Answered => Len(Ob.obs) = Len(Ob.steps) /\ Replay.bad = 0
===============================================================================
