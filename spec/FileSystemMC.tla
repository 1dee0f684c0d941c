---------------------------- MODULE FileSystemMC ----------------------------
(* Histories of a small file system with searches and changes of the current *)
(* directory.                                                                 *)
EXTENDS FileSystem
CONSTANTS MaxNodes, Other
RootName == <<SLASH, 114>>
NameSet == {<<97>>, <<98>>}
Targets == {<<97>>, <<98>>, <<PERIOD, PERIOD>>, RootName \o <<SLASH, 97>>}
Dirs == {Here, <<97>>, <<98, SLASH>>, RootName \o <<SLASH, 98>>}
Modes == IF Other THEN {493, 448} ELSE {493}
VARIABLES fs, cwd, gone, last
vars == <<fs, cwd, gone, last>>
Init == gone = FALSE /\ fs = EmptyFs /\ cwd = <<>> /\ last = <<>>

Places == {Append(d, n) : d \in {x \in DOMAIN fs : fs[x].k = "dir" /\ Len(x) < 2}, n \in NameSet}
MakeAny == /\ Cardinality(DOMAIN fs) < MaxNodes
           /\ \E at \in Places \ DOMAIN fs, node \in {FileNode(420), FifoNode(420)} \cup {LinkNode(t) : t \in Targets} \cup {DirNode(m) : m \in Modes} :
                fs' = Make(fs, at, node)
           /\ UNCHANGED <<cwd, gone, last>>
RemoveAny == /\ \E at \in DOMAIN fs : /\ fs' = Unlink(fs, at) /\ fs' # fs
                                       /\ gone' = (gone \/ at = cwd)
             /\ UNCHANGED <<cwd, last>>
Rename == /\ \E at \in DOMAIN fs, to \in Places \ DOMAIN fs :
               /\ CanMove(fs, at, to) /\ fs' = Move(fs, at, to)
               /\ cwd' = IF gone THEN cwd ELSE Moved(at, to, cwd)
          /\ UNCHANGED <<gone, last>>
(* nothing is reached from a directory which was removed but by an absolute name *)
Cd == /\ \E d \in {x \in Dirs \cup {<<PERIOD, PERIOD>>, RootName} : ~gone \/ IsAbsolute(x)} :
           LET r == Resolve(fs, RootName, Other, cwd, d) IN
             IF r.ok /\ fs[r.at].k = "dir" /\ May(fs[r.at], 1, Other) THEN cwd' = r.at /\ gone' = FALSE ELSE UNCHANGED <<cwd, gone>>
      /\ UNCHANGED <<fs, last>>
Find == /\ ~gone
        /\ \E n \in NameSet, d1 \in Dirs, d2 \in Dirs : last' = Search(fs, RootName, Other, cwd, n, <<d1, d2>>)
        /\ UNCHANGED <<fs, cwd, gone>>
Next == MakeAny \/ RemoveAny \/ Rename \/ Cd \/ (last = <<>> /\ Find)
Spec == Init /\ [][Next]_vars
View == <<fs, cwd, gone>>

CwdIsDirectory == gone \/ IsDirAt(fs, cwd)
TreeShape == \A at \in DOMAIN fs : at = <<>> \/ IsDirAt(fs, Front(at))
(* a result of a search is a file and no earlier directory has one *)
FirstHit == gone \/ \A n \in NameSet, d1 \in Dirs, d2 \in Dirs :
  LET K(p) == Kind(fs, RootName, Other, cwd, p)
      r == Search(fs, RootName, Other, cwd, n, <<d1, d2>>)
      p1 == AppendPath(d1, n)   p2 == AppendPath(d2, n)
  IN  /\ r = <<>> <=> K(p1) # "file" /\ K(p2) # "file"
      /\ r # <<>> => K(r) = "file" /\ (r = p1 \/ (r = p2 /\ K(p1) # "file"))
(* the same file by its absolute path *)
AbsoluteSame == gone \/ \A n \in NameSet : LET r == Resolve(fs, RootName, Other, cwd, n) IN
  r.ok /\ ~Other => Resolve(fs, RootName, Other, cwd, AbsoluteOf(RootName, r.at)) = r
ResolvedIsNoLink == gone \/ \A n \in NameSet, d \in Dirs : LET r == Resolve(fs, RootName, Other, cwd, AppendPath(d, n)) IN
  r.ok => r.at \in DOMAIN fs /\ fs[r.at].k # "link"
(* what a search finds is in the listing, and everything listed is there *)
ListedIsThere == gone \/ \A d \in Dirs :
  LET l == Listing(fs, RootName, Other, cwd, d)
      r == Resolve(fs, RootName, Other, cwd, d)
  IN  /\ l # {} => r.ok /\ {Here, <<PERIOD, PERIOD>>} \subseteq l
      /\ l # {} => \A n \in NameSet : n \in l <=> Append(r.at, n) \in DOMAIN fs
      /\ l # {} => \A n \in NameSet : Search(fs, RootName, Other, cwd, n, <<d>>) # <<>> => n \in l
      /\ Cardinality(l) # 1
(* a directory keeps all that is in it when it is moved *)
MovedKeeps == \A at \in DOMAIN fs, to \in Places \ DOMAIN fs : CanMove(fs, at, to) =>
  /\ Cardinality(DOMAIN Move(fs, at, to)) = Cardinality(DOMAIN fs)
  /\ Move(Move(fs, at, to), to, at) = fs
=============================================================================
