----------------------------- MODULE WatcherTrace -----------------------------
(* Observed histories of filters and their watchers (P27), replayed.         *)
EXTENDS Watcher, Observed
FILTER == B("DifferenceImageFilter")
Name_(st) == IF st.what = "told" THEN st.name ELSE FILTER
Ev(t) == CHOOSE e \in Events : B(e) = t
AllEvents(s, p, l) == FoldLeft(LAMBDA a, t : Happens(a, p, Ev(t)), s, l)
Step(s, st, o) ==
  CASE st.op = "proc" -> MakeProc(s, st.p, Name_(st))
    [] st.op = "watch" -> Watch(s, [id |-> st.id, proc |-> st.p, own |-> st.own, comment |-> st.comment, to |-> st.to])
    [] st.op = "drop" -> Unwatch(s, st.id)
    [] st.op = "free" -> LetGo(s, st.p)
    [] st.op = "ev" -> Happens(s, st.p, st.e)
    [] st.op = "run" -> AllEvents(s, st.p, o.evs)      \* as an observer of its own saw them
    [] OTHER -> s
Delta(s, t, k) == Drop(Written(t, k), Len(Written(s, k)))
TextsRight(s, t, o) == \A k \in 0..3 : o.out[k + 1] = Delta(s, t, k)
LivesRight(t, o) == \A p \in DOMAIN t.procs : o.alive[p + 1] = 1 <=> Alive(t, p)
NameRight(s, st, o) == st.op = "name" => \E j \in 1..Len(s.ws) : s.ws[j].id = st.id /\ o.name = s.procs[s.ws[j].proc].name
(* a run which is told what to do has the events of that, whoever watches    *)
RunRight(st, o) == (st.op = "run" /\ st.what = "told") =>
  LET broken == {j \in 1..Len(st.script) : st.script[j] \in {"abort", "fail"}}
      n == IF broken = {} THEN Len(st.script) ELSE (CHOOSE j \in broken : \A i \in broken : j <= i) - 1
      own == SelectSeq(SubSeq(st.script, 1, n), LAMBDA x : x \notin {"stop", "progress", "ProgressEvent", "ModifiedEvent"})
      l == SelectSeq(o.evs, LAMBDA t : t \notin {B("ProgressEvent"), B("ModifiedEvent")}) IN
    /\ o.threw = (IF broken = {} THEN 0 ELSE 1)
    /\ Len(l) > 0 /\ l[1] = B("StartEvent")
    /\ SubSeq(l, 2, 1 + Len(own)) = [j \in 1..Len(own) |-> B(own[j])]
Replay == FoldLeft(LAMBDA a, st :
  LET o == Ob.obs[a.n]  t == Step(a.s, st, o) IN
    [s |-> t, n |-> a.n + 1,
     bad |-> IF a.bad > 0 \/ (TextsRight(a.s, t, o) /\ LivesRight(t, o) /\ NameRight(a.s, st, o) /\ RunRight(st, o)) THEN a.bad ELSE a.n],
  [s |-> None, n |-> 1, bad |-> 0], Ob.steps)
Right == Answered => Len(Ob.obs) = Len(Ob.steps) /\ Replay.bad = 0
Alias == [from |-> from, off |-> off, step |-> IF Answered /\ Replay.bad > 0 THEN Ob.steps[Replay.bad] ELSE <<>>,
          obs |-> IF Answered /\ Replay.bad > 0 THEN Ob.obs[Replay.bad] ELSE <<>>]
===============================================================================
