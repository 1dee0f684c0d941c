----------------------------- MODULE FileSystem -----------------------------
(* A file system as far as the framework looks at it: files, directories,    *)
(* pipes and links below one root, permissions of the owner and of others,   *)
(* the current directory.  A place is the sequence of names from the root.   *)
EXTENDS Path

(* fs maps places to [k, to, mode]; the root is the place <<>> and is there  *)
DirNode(m)   == [k |-> "dir", to |-> <<>>, mode |-> m]
FileNode(m)  == [k |-> "file", to |-> <<>>, mode |-> m]
FifoNode(m)  == [k |-> "fifo", to |-> <<>>, mode |-> m]
LinkNode(t)  == [k |-> "link", to |-> t, mode |-> 511]
EmptyFs == <<>> :> DirNode(493)

(* permissions: 4 read, 2 write, 1 execute *)
Bit(mode, b) == (mode \div b) % 2 = 1
Anybody(mode) == Bit(mode, 1) \/ Bit(mode, 8) \/ Bit(mode, 64)
May(node, b, other) ==
  IF other THEN Bit(node.mode, b)
  ELSE b # 1 \/ node.k = "dir" \/ Anybody(node.mode)   \* the superuser

Names(path) == SelectSeq(Split(path, SLASH), LAMBDA n : n # <<>>)
Missing == [ok |-> FALSE, at |-> <<>>]
MaxLinks == 40

(* the names of an absolute path below the root directory, which has the     *)
(* name root                                                                  *)
Below(root, path) == StartsWith(path, root) /\ (Len(path) = Len(root) \/ path[Len(root) + 1] = SLASH)

RECURSIVE Walk(_, _, _, _, _, _)
Walk(fs, root, other, at, todo, links) ==
  IF todo = <<>> THEN [ok |-> TRUE, at |-> at]
  ELSE IF fs[at].k # "dir" \/ ~May(fs[at], 1, other) THEN Missing
  ELSE IF Head(todo) = Here THEN Walk(fs, root, other, at, Tail(todo), links)
  ELSE IF Head(todo) = <<PERIOD, PERIOD>>
       THEN Walk(fs, root, other, IF at = <<>> THEN <<>> ELSE Front(at), Tail(todo), links)
  ELSE LET here == Append(at, Head(todo)) IN
       IF here \notin DOMAIN fs THEN Missing
       ELSE IF fs[here].k = "link"
            THEN IF links = 0 THEN Missing
                 ELSE LET t == fs[here].to IN
                      IF IsAbsolute(t)
                      THEN IF Below(root, t) THEN Walk(fs, root, other, <<>>, Names(Drop(t, Len(root))) \o Tail(todo), links - 1)
                           ELSE Missing
                      ELSE Walk(fs, root, other, at, Names(t) \o Tail(todo), links - 1)
            ELSE Walk(fs, root, other, here, Tail(todo), links)

(* what stat says of a path *)
Resolve(fs, root, other, cwd, path) ==
  IF path = <<>> THEN Missing
  ELSE LET abs == IsAbsolute(path)
           r == IF abs /\ ~Below(root, path) THEN Missing
                ELSE Walk(fs, root, other, IF abs THEN <<>> ELSE cwd,
                          Names(IF abs THEN Drop(path, Len(root)) ELSE path), MaxLinks)
           dirOnly == Last1(path) = SLASH
       IN  IF ~r.ok \/ (dirOnly /\ fs[r.at].k # "dir") THEN Missing ELSE r

Kind(fs, root, other, cwd, path) ==
  LET r == Resolve(fs, root, other, cwd, path) IN IF r.ok THEN fs[r.at].k ELSE "none"
Access(fs, root, other, cwd, path, b) ==
  LET r == Resolve(fs, root, other, cwd, path) IN
    r.ok /\ May(fs[r.at], b, other) /\ (fs[r.at].k = "dir" /\ b # 1 => May(fs[r.at], 1, other))

(* the search of a list of directories *)
Search(fs, root, other, cwd, name, dirs) ==
  LET hit == SelectSeq([i \in 1..Len(dirs) |-> AppendPath(dirs[i], name)],
                       LAMBDA p : Kind(fs, root, other, cwd, p) = "file")
  IN  IF hit = <<>> THEN <<>> ELSE hit[1]

(* the names in a directory, with the two for itself and its parent *)
Listing(fs, root, other, cwd, path) ==
  LET r == Resolve(fs, root, other, cwd, path) IN
    IF ~r.ok \/ fs[r.at].k # "dir" \/ ~May(fs[r.at], 4, other) THEN {}
    ELSE {Here, <<PERIOD, PERIOD>>} \cup {Last1(b) : b \in {x \in DOMAIN fs : Len(x) = Len(r.at) + 1 /\ Front(x) = r.at}}

AbsoluteOf(root, at) == FoldLeft(LAMBDA a, n : a \o <<SLASH>> \o n, root, at)

-----------------------------------------------------------------------------
(* changes; the parent has to be a directory *)
IsDirAt(fs, at) == at \in DOMAIN fs /\ fs[at].k = "dir"
Place(root, path) == Names(Drop(path, Len(root)))
Make(fs, at, node) == IF at # <<>> /\ at \notin DOMAIN fs /\ IsDirAt(fs, Front(at)) THEN (at :> node) @@ fs ELSE fs
Unlink(fs, at) ==
  IF at # <<>> /\ at \in DOMAIN fs /\ ~(\E b \in DOMAIN fs : Len(b) = Len(at) + 1 /\ Front(b) = at)
  THEN [x \in DOMAIN fs \ {at} |-> fs[x]] ELSE fs
Under(at, b) == Len(b) >= Len(at) /\ SubSeq(b, 1, Len(at)) = at
Moved(at, to, b) == IF Under(at, b) THEN to \o Drop(b, Len(at)) ELSE b
CanMove(fs, at, to) == /\ at # <<>> /\ at \in DOMAIN fs /\ ~Under(at, to) /\ to \notin DOMAIN fs
                       /\ to # <<>> /\ IsDirAt(fs, Front(to))
Move(fs, at, to) ==
  IF ~CanMove(fs, at, to) THEN fs
  ELSE LET from(x) == IF Under(to, x) THEN at \o Drop(x, Len(to)) ELSE x
       IN  [x \in {Moved(at, to, b) : b \in DOMAIN fs} |-> fs[from(x)]]
Chmod(fs, at, m) == IF at \in DOMAIN fs /\ fs[at].k # "link" THEN [fs EXCEPT ![at].mode = m] ELSE fs
=============================================================================
