------------------------------- MODULE Watcher -------------------------------
(* Watchers of filters.  A watcher writes a text for the events of its       *)
(* filter, in the order in which they happen, as long as it is there; the    *)
(* filter is there as long as it is held or watched.                         *)
(*                                                                           *)
(* procs: by number, [name, held].  ws: the watchers in the order in which   *)
(* they were made, [id, proc, own, comment, to].  out: by stream, the text.  *)
EXTENDS Bytes, Functions, TLC

(* the kinds of events, and what they are special kinds of *)
Iterations == {"IterationEvent", "MultiResolutionIterationEvent", "FunctionEvaluationIterationEvent",
               "GradientEvaluationIterationEvent", "FunctionAndGradientEvaluationIterationEvent"}
OtherEvents == {"AnyEvent", "ProgressEvent", "ExitEvent", "ModifiedEvent", "InitializeEvent", "PickEvent", "StartPickEvent", "EndPickEvent",
                "AbortCheckEvent", "UserEvent"}
Events == {"StartEvent", "EndEvent", "AbortEvent"} \cup Iterations \cup OtherEvents

NLn == <<10>>
Quoted(t) == B(" ") \o <<34>> \o t \o <<34>> \o B(" ")
EndText(name, comment) == NLn \o B("-------- End ") \o name \o Quoted(comment) \o NLn
TextOf(e, name, comment) ==
  CASE e = "StartEvent" -> B("-------- Start ") \o name \o Quoted(comment)
    [] e = "EndEvent" -> EndText(name, comment)
    [] e = "AbortEvent" -> NLn \o B("      ABORT") \o NLn
    [] e \in Iterations -> B(" # ")
    [] OTHER -> <<>>
(* a watcher which has handlers of its own *)
OwnText(e, name, comment) ==
  CASE e = "StartEvent" -> B("<S ") \o name \o B(">")
    [] e = "EndEvent" -> B("<E>") \o EndText(name, comment)
    [] e = "AbortEvent" -> B("<A>")
    [] e = "ProgressEvent" -> B("<P>")
    [] e \in Iterations -> B("<I>")
    [] OTHER -> <<>>
Writes(w, e, name) == IF w.own THEN OwnText(e, name, w.comment) ELSE TextOf(e, name, w.comment)

None == [procs |-> <<>>, ws |-> <<>>, out |-> <<>>]
Watchers(s, p) == SelectSeq(s.ws, LAMBDA w : w.proc = p)
Alive(s, p) == s.procs[p].held \/ Watchers(s, p) # <<>>
MakeProc(s, p, name) == [s EXCEPT !.procs = (p :> [name |-> name, held |-> TRUE]) @@ @]
Watch(s, w) == [s EXCEPT !.ws = Append(@, w)]
Unwatch(s, id) == [s EXCEPT !.ws = SelectSeq(@, LAMBDA w : w.id # id)]
LetGo(s, p) == [s EXCEPT !.procs[p].held = FALSE]
Happens(s, p, e) ==
  [s EXCEPT !.out = FoldLeft(LAMBDA o, w : LET t == Writes(w, e, s.procs[p].name) IN
                                             (w.to :> (IF w.to \in DOMAIN o THEN o[w.to] \o t ELSE t)) @@ o, @, Watchers(s, p))]
Written(s, k) == IF k \in DOMAIN s.out THEN s.out[k] ELSE <<>>
===============================================================================
