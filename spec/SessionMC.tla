------------------------------ MODULE SessionMC ------------------------------
(* Runs of two test objects in one process, one after the other and within   *)
(* each other, made by an implementation which keeps a counter and streams   *)
(* in the object.  Whatever was before, each run has the mode and the result *)
(* of a run by itself, and writes to its own output.                         *)
(* Reset: the counter is set back and an aborted run closes its streams.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxRuns, MaxMade, Reset
Objs == {1, 2}
Std == 0
Kinds == [in : BOOLEAN, file : BOOLEAN, bad : {"args", "begin", "no"}]

VARIABLES obj,        \* what the objects keep: counter, input (is it open), output (the run it belongs to, or the standard output)
          stack,      \* the runs under way, the innermost last
          runs, wrote, results
vars == <<obj, stack, runs, wrote, results>>
Init == /\ obj = [o \in Objs |-> [n |-> 0, is |-> FALSE, os |-> Std]]
        /\ stack = <<>> /\ runs = 0 /\ wrote = {} /\ results = {}
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Busy(o) == \E j \in 1..Len(stack) : stack[j].o = o
(* the output of a run is the one asked for *)
Target(r) == IF r.kind.file THEN r.id ELSE Std

Closed(x) == [x EXCEPT !.is = FALSE, !.os = Std]
Stop(x) == IF Reset THEN Closed(x) ELSE x          \* an aborted run
Report(r, failed, x) == results' = results \cup {[failed |-> failed, cmp |-> r.kind.in, mism |-> r.mism, v |-> x]}

Start(o, k) ==
  LET x == obj[o]
      n == (IF Reset THEN 0 ELSE x.n) + 1
      y == [x EXCEPT !.n = n]
      z == IF k.bad = "args" THEN y
           ELSE LET a == IF k.file THEN [y EXCEPT !.os = runs + 1] ELSE y IN
                IF k.bad = "begin" THEN a ELSE IF k.in THEN [a EXCEPT !.is = TRUE] ELSE a
      r == [o |-> o, id |-> runs + 1, kind |-> k, made |-> 0, mism |-> 0]
  IN  /\ runs < MaxRuns /\ ~Busy(o)
      /\ runs' = runs + 1
      /\ IF k.bad = "no" THEN obj' = [obj EXCEPT ![o] = z] /\ stack' = Append(stack, r) /\ UNCHANGED <<wrote, results>>
         ELSE obj' = [obj EXCEPT ![o] = Stop(z)] /\ stack' = stack /\ Report(r, TRUE, n) /\ UNCHANGED wrote
Make(match) ==
  LET r == Top  x == obj[r.o]
      w == wrote \cup {[to |-> x.os, own |-> Target(r)]} IN
  /\ stack # <<>> /\ r.made < MaxMade
  /\ stack' = Append(Pop, [r EXCEPT !.made = @ + 1, !.mism = IF r.kind.in /\ ~match THEN @ + 1 ELSE @])
  /\ IF x.is THEN (IF match THEN UNCHANGED <<obj, wrote>> ELSE obj' = [obj EXCEPT ![r.o].n = @ + 1] /\ wrote' = w)
     ELSE UNCHANGED obj /\ wrote' = w
  /\ UNCHANGED <<runs, results>>
Throw == /\ stack # <<>> /\ stack' = Pop
         /\ obj' = [obj EXCEPT ![Top.o] = Stop(@)]
         /\ Report(Top, TRUE, obj[Top.o].n) /\ UNCHANGED <<runs, wrote>>
Return == /\ stack # <<>> /\ stack' = Pop
          /\ LET x == obj[Top.o] IN
               /\ obj' = [obj EXCEPT ![Top.o] = [Closed(@) EXCEPT !.n = @ - 1]]
               /\ Report(Top, FALSE, IF x.is THEN x.n - 1 ELSE 0)
          /\ UNCHANGED <<runs, wrote>>
Next == (\E o \in Objs, k \in Kinds : Start(o, k)) \/ (\E m \in BOOLEAN : Make(m)) \/ Throw \/ Return
Spec == Init /\ [][Next]_vars

ResultsRight == \A r \in results : IF r.failed THEN r.v > 0 ELSE r.v = IF r.cmp THEN r.mism ELSE 0
OwnOutput == \A w \in wrote : w.to = w.own
ModeRight == stack # <<>> => \A j \in 1..Len(stack) : obj[stack[j].o].is = stack[j].kind.in
Symmetric == \A o \in Objs : ~Busy(o) /\ Reset => obj[o].os = Std /\ ~obj[o].is
==============================================================================
