------------------------------ MODULE WatcherGen ------------------------------
(* All short histories of two filters and up to two watchers, for the        *)
(* conformance runs.                                                         *)
EXTENDS Watcher, Json, IOUtils
Length == atoi(IOEnv.LENGTH)
Kinds == {"StartEvent", "IterationEvent", "AbortEvent", "EndEvent"}
Start == [s |-> MakeProc(MakeProc(None, 0, <<>>), 1, <<>>), h |-> <<>>, used |-> 0]
Did(x, s, op) == [x EXCEPT !.s = s, !.h = Append(@, op), !.used = IF op.op = "watch" THEN @ + 1 ELSE @]
Extensions(x) ==
  LET live == {p \in 0..1 : Alive(x.s, p)} IN
  (IF x.used > 1 THEN {} ELSE {Did(x, Watch(x.s, [id |-> x.used, proc |-> p, own |-> own, comment |-> <<>>, to |-> 0]), [op |-> "watch", id |-> x.used, p |-> p, own |-> own]) : p \in live, own \in BOOLEAN})
  \cup {Did(x, Unwatch(x.s, x.s.ws[j].id), [op |-> "drop", id |-> x.s.ws[j].id]) : j \in 1..Len(x.s.ws)}
  \cup {Did(x, LetGo(x.s, p), [op |-> "free", p |-> p]) : p \in {q \in 0..1 : x.s.procs[q].held}}
  \cup {Did(x, x.s, [op |-> "ev", p |-> p, e |-> e]) : p \in live, e \in Kinds}
RECURSIVE All(_)
All(n) == IF n = 0 THEN {Start} ELSE UNION {Extensions(x) : x \in All(n - 1)}
(* those which watch at all; and which filters may still be asked at the end *)
Cases == {[h |-> x.h, live |-> SetToSeq({p \in 0..1 : Alive(x.s, p)})] : x \in {y \in All(Length) : y.used > 0}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
===============================================================================
