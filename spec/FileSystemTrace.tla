--------------------------- MODULE FileSystemTrace ---------------------------
(* Observed histories of a directory tree (P14, P16): the steps are replayed *)
(* in the model; what was observed has to be what the model says.            *)
EXTENDS FileSystem, Observed

Q(st) == Ob.obs[st.q]
Where(root, s) == IF s.gone THEN <<>> ELSE AbsoluteOf(root, s.cwd)
Answer(s, st) ==      \* is the observation of this step right?
  LET root == Ob.root  oth == s.other IN
  CASE st.op = "search" -> /\ Q(st).found = Search(s.fs, root, oth, s.cwd, st.p, st.l)
                           /\ Q(st).name = st.p
    [] st.op = "pred" ->
        LET k == Kind(s.fs, root, oth, s.cwd, st.p)
            A(b) == Access(s.fs, root, oth, s.cwd, st.p, b)
            X == LET r == Resolve(s.fs, root, oth, s.cwd, st.p) IN r.ok /\ May(s.fs[r.at], 1, oth)
        IN  /\ Q(st).f = 1 <=> k = "file"
            /\ Q(st).d = 1 <=> k = "dir"
            /\ Q(st).e = 1 <=> k # "none"
            /\ Q(st).rd = 1 <=> A(4)
            /\ Q(st).wr = 1 <=> A(2)
            /\ Q(st).ex = 1 <=> X
    [] st.op = "cd" ->
        LET r == Resolve(s.fs, root, oth, s.cwd, st.p)
            can == r.ok /\ s.fs[r.at].k = "dir" /\ May(s.fs[r.at], 1, oth)
        IN  IF can THEN Q(st).threw = 0 /\ Q(st).v = 1 /\ Q(st).cwd = AbsoluteOf(root, r.at)
            ELSE (Q(st).threw = 1 \/ Q(st).v = 0) /\ Q(st).cwd = Where(root, s)
    [] st.op = "where" -> Q(st).cwd = Where(root, s)
    [] st.op = "ls" -> LET l == Q(st).list IN
        /\ {l[i] : i \in 1..Len(l)} = Listing(s.fs, root, oth, s.cwd, st.p)
        /\ Len(l) = Cardinality({l[i] : i \in 1..Len(l)})
        /\ Q(st).name = st.p
    [] OTHER -> TRUE
After(s, st) ==
  CASE st.op = "file" -> [s EXCEPT !.fs = Make(s.fs, Place(Ob.root, st.p), FileNode(420))]
    [] st.op = "dir"  -> [s EXCEPT !.fs = Make(s.fs, Place(Ob.root, st.p), DirNode(493))]
    [] st.op = "fifo" -> [s EXCEPT !.fs = Make(s.fs, Place(Ob.root, st.p), FifoNode(420))]
    [] st.op = "link" -> [s EXCEPT !.fs = Make(s.fs, Place(Ob.root, st.p), LinkNode(st.t))]
    [] st.op = "rm"   -> LET at == Place(Ob.root, st.p) fs2 == Unlink(s.fs, at) IN
        [s EXCEPT !.fs = fs2, !.gone = @ \/ (at = s.cwd /\ fs2 # s.fs)]
    [] st.op = "mv"   -> LET at == Place(Ob.root, st.p) to == Place(Ob.root, st.t) IN
        [s EXCEPT !.fs = Move(s.fs, at, to), !.cwd = IF ~s.gone /\ CanMove(s.fs, at, to) THEN Moved(at, to, s.cwd) ELSE @]
    [] st.op = "chmod" -> [s EXCEPT !.fs = Chmod(s.fs, Place(Ob.root, st.p), st.m)]
    [] st.op = "user" -> [s EXCEPT !.other = TRUE]
    [] st.op = "cd"   ->
        LET r == Resolve(s.fs, Ob.root, s.other, s.cwd, st.p) IN
          IF r.ok /\ s.fs[r.at].k = "dir" /\ May(s.fs[r.at], 1, s.other) THEN [s EXCEPT !.cwd = r.at, !.gone = FALSE] ELSE s
    [] OTHER -> s
Replay == FoldLeft(LAMBDA s, st : [After(s, st) EXCEPT !.bad = IF s.bad = 0 /\ ~Answer(s, st) THEN s.n ELSE s.bad, !.n = s.n + 1],
                   [fs |-> EmptyFs, cwd |-> <<>>, gone |-> FALSE, other |-> FALSE, bad |-> 0, n |-> 1], Ob.steps)
Alias == [from |-> from, off |-> off, step |-> IF Answered /\ Ob.code = 0 THEN Ob.steps[Replay.bad] ELSE <<>>, obs |-> IF Answered /\ Ob.code = 0 THEN Q(Ob.steps[Replay.bad]) ELSE <<>>]
Ended == Answered => Ob.sig = 0 /\ Ob.code = 0
AllAnswersRight == (Answered /\ Ob.code = 0) => Replay.bad = 0
==============================================================================
