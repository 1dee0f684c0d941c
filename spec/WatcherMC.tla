------------------------------ MODULE WatcherMC ------------------------------
(* All short histories of two filters and their watchers.                    *)
EXTENDS Watcher
CONSTANTS MaxSteps, Kinds
Name == <<B("F"), B("G")>>
VARIABLES s, hist, used
vars == <<s, hist, used>>
Init == s = MakeProc(MakeProc(None, 1, Name[1]), 2, Name[2]) /\ hist = <<>> /\ used = 0
Log(x) == hist' = Append(hist, x)
Made == /\ used < 2
        /\ \E p \in 1..2, own \in BOOLEAN, to \in 1..2 :
             /\ Alive(s, p)
             /\ LET w == [id |-> used + 1, proc |-> p, own |-> own, comment |-> <<49 + used>>, to |-> to] IN s' = Watch(s, w) /\ Log([k |-> "watch", w |-> w])
        /\ used' = used + 1
Dropped == \E j \in 1..Len(s.ws) : s' = Unwatch(s, s.ws[j].id) /\ Log([k |-> "drop", id |-> s.ws[j].id]) /\ UNCHANGED used
Freed == \E p \in 1..2 : s.procs[p].held /\ s' = LetGo(s, p) /\ Log([k |-> "free", p |-> p]) /\ UNCHANGED used
Event == \E p \in 1..2, e \in Kinds : Alive(s, p) /\ s' = Happens(s, p, e) /\ Log([k |-> "ev", p |-> p, e |-> e]) /\ UNCHANGED used
Next == Len(hist) < MaxSteps /\ (Made \/ Dropped \/ Freed \/ Event)
Spec == Init /\ [][Next]_vars

(* a watcher writes the texts of the events of its filter between its        *)
(* beginning and its end, and nothing else                                   *)
Is(x, k) == x.k = k
Position(k, id) == {j \in 1..Len(hist) : (k = "watch" /\ Is(hist[j], k) /\ hist[j].w.id = id) \/ (k = "drop" /\ Is(hist[j], k) /\ hist[j].id = id)}
From(id) == CHOOSE j \in Position("watch", id) : TRUE
Until(id) == IF Position("drop", id) = {} THEN Len(hist) + 1 ELSE CHOOSE j \in Position("drop", id) : TRUE
Mine(id) ==
  LET w == hist[From(id)].w IN
    FoldLeftDomain(LAMBDA a, j : IF j > From(id) /\ j < Until(id) /\ Is(hist[j], "ev") /\ hist[j].p = w.proc THEN a \o Writes(w, hist[j].e, Name[w.proc]) ELSE a, <<>>, hist)
Ids == {j \in 1..used : TRUE}
WritesOwn == \A k \in 1..2 :
  LET I == {id \in Ids : hist[From(id)].w.to = k} IN
    CASE I = {} -> Written(s, k) = <<>>
      [] Cardinality(I) = 1 -> \A id \in I : Written(s, k) = Mine(id)
      [] OTHER -> Len(Written(s, k)) = Len(Mine(1)) + Len(Mine(2))
(* it does not matter to one whether there is another *)
LivesWhileWatched == \A p \in 1..2 : Alive(s, p) <=> (~(\E j \in 1..Len(hist) : Is(hist[j], "free") /\ hist[j].p = p) \/ \E id \in Ids : hist[From(id)].w.proc = p /\ Until(id) > Len(hist))
Addition == [][\A k \in 1..2 : StartsWith(Written(s, k)', Written(s, k))]_vars
OnlyEvents == [][s.out' # s.out => Last(hist').k = "ev"]_vars
Silent == \A e \in OtherEvents : TextOf(e, Name[1], <<>>) = <<>>
===============================================================================
