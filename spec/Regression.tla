----------------------------- MODULE Regression -----------------------------
(* A run of a regression test: its arguments, its preparation, its           *)
(* measurements, its result.  The operators give the next state of a run for *)
(* each thing that can happen; RegressionMC makes transitions of them, and   *)
(* RegressionTrace replays what was observed.                                *)
(*                                                                           *)
(* The world of a run is a file system with contents (data maps places to    *)
(* bytes, img those of image files to images).  A measurement of the test is [file, name, type, text, tol,       *)
(* exact]; one of a baseline is [file, name, type, enc, text].               *)
EXTENDS FileSystem, MeasurementData, ImageCompare, XmlWrite

World(fs, root, data, cwd, other) == [fs |-> fs, root |-> root, data |-> data, img |-> <<>>, cwd |-> cwd, other |-> other]
At_(w, path) == Resolve(w.fs, w.root, w.other, w.cwd, path)
KindOf(w, path) == Kind(w.fs, w.root, w.other, w.cwd, path)
Readable(w, path) == Access(w.fs, w.root, w.other, w.cwd, path, 4)
Writable(w, path) == Access(w.fs, w.root, w.other, w.cwd, path, 2)
IsFile_(w, path) == KindOf(w, path) = "file"
Contents(w, path) == w.data[At_(w, path).at]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Found(w, name, dirs) == Search(w.fs, w.root, w.other, w.cwd, name, dirs)

(* changes of the world by the test *)
ParentOf(w, path) == At_(w, DirectoryName(path))
PutFile(w, path, bytes) ==
  LET r == At_(w, path)  p == ParentOf(w, path) IN
    IF r.ok THEN (IF w.fs[r.at].k = "file" THEN [w EXCEPT !.data = (r.at :> bytes) @@ w.data, !.img = Without(w.img, r.at)] ELSE w)
    ELSE IF p.ok /\ w.fs[p.at].k = "dir"
         THEN LET at == Append(p.at, Tail_(path)) IN
              [w EXCEPT !.fs = (at :> FileNode(420)) @@ w.fs, !.data = (at :> bytes) @@ w.data, !.img = Without(w.img, at)]
    ELSE w
RemoveFile(w, path) ==
  LET p == ParentOf(w, path) IN
    IF p.ok /\ Append(p.at, Tail_(path)) \in DOMAIN w.fs THEN [w EXCEPT !.fs = Unlink(w.fs, Append(p.at, Tail_(path)))] ELSE w
ChangeDir(w, path) ==
  LET r == At_(w, path) IN IF r.ok /\ w.fs[r.at].k = "dir" THEN [w EXCEPT !.cwd = r.at] ELSE w

-----------------------------------------------------------------------------
(* the state of a run                                                        *)
(*   ph      "args", "begin", "test", "done"                                 *)
(*   rest    the arguments which are left; in, out, exp, paths: settings     *)
(*   lin,lout  the last -I and -O                                            *)
(*   mode    "rec" or "cmp" once the preparation is over                     *)
(*   base    the baseline; made: number of measurements; mism: mismatches    *)
(*   log     the verdict for each measurement, with the path of the baseline *)
(*   started the test was called; failed: aborted; ret: what it returned     *)
NoName == <<>>
Settings == [in |-> NoName, out |-> NoName, exp |-> 0, paths |-> <<>>, tol |-> DefaultTolerance, itol |-> Exactly]
Fresh(args, set, w) ==
  [ph |-> "args", rest |-> args, in |-> set.in, out |-> set.out, exp |-> set.exp, paths |-> set.paths, tol |-> set.tol, itol |-> set.itol,
   lin |-> NoName, lout |-> NoName, w |-> w, mode |-> "none", base |-> <<>>, made |-> 0, mism |-> 0, log |-> <<>>,
   started |-> FALSE, failed |-> FALSE, ret |-> 0, unsure |-> FALSE]
Aborted(s) == [s EXCEPT !.ph = "done", !.failed = TRUE]

OPTI == B("-I")  OPTO == B("-O")  OPTR == B("-R")  OPTP == B("-P")
Options == {OPTI, OPTO, OPTR, OPTP}
LeadingDigits(t) == LET k == FoldLeftDomain(LAMBDA a, j : IF a = j - 1 /\ IsDigit(t[j]) THEN j ELSE a, 0, t) IN SubSeq(t, 1, k)
IntOf(t) ==       \* summed up with its sign, since there is one more negative number
  LET u == Trimmed(t)  neg == u # <<>> /\ u[1] = 45 IN
    FoldLeft(LAMBDA a, d : IF neg THEN 10 * a - (d - 48) ELSE 10 * a + (d - 48), 0, LeadingDigits(Signed(u)))

(* one step of the arguments *)
ParseOne(s) ==
  IF s.rest = <<>> \/ Head(s.rest) \notin Options
  THEN [s EXCEPT !.ph = "begin", !.in = IF s.lin # NoName THEN s.lin ELSE @, !.out = IF s.lout # NoName THEN s.lout ELSE @]
  ELSE IF Len(s.rest) = 1 THEN Aborted(s)
  ELSE LET o == s.rest[1]  v == s.rest[2]
           t == [s EXCEPT !.rest = Drop(@, 2)]
       IN  CASE o = OPTO -> IF IsFile_(s.w, v) /\ ~Writable(s.w, v) THEN Aborted(s) ELSE [t EXCEPT !.lout = v]
             [] o = OPTI -> IF IsFile_(s.w, v) /\ Readable(s.w, v) THEN [t EXCEPT !.lin = v] ELSE Aborted(s)
             [] o = OPTR -> [t EXCEPT !.exp = IntOf(v)]
             [] o = OPTP -> IF KindOf(s.w, v) = "dir" /\ Readable(s.w, v) THEN [t EXCEPT !.paths = <<v>> \o @] ELSE Aborted(s)

(* the output is created, the baseline read *)
OpenOut(s) ==        \* the world, or that it is impossible
  IF s.out = NoName THEN [ok |-> TRUE, w |-> s.w]
  ELSE LET r == At_(s.w, s.out)  p == ParentOf(s.w, s.out) IN
       IF r.ok THEN [ok |-> s.w.fs[r.at].k # "dir" /\ Writable(s.w, s.out), w |-> PutFile(s.w, s.out, <<>>)]
       ELSE [ok |-> Tail_(s.out) # <<>> /\ p.ok /\ s.w.fs[p.at].k = "dir" /\ Writable(s.w, DirectoryName(s.out)), w |-> PutFile(s.w, s.out, <<>>)]
InputName(s) == LET f == Found(s.w, s.in, s.paths) IN IF f # NoName THEN f ELSE s.in
Begin(s) ==
  LET o == OpenOut(s) IN
    IF ~o.ok THEN Aborted(s)
    ELSE LET t == [s EXCEPT !.w = o.w] IN
         IF t.in = NoName THEN [t EXCEPT !.ph = "test", !.started = TRUE, !.mode = "rec"]
         ELSE LET n == InputName(t) IN
              IF ~(IsFile_(t.w, n) /\ Readable(t.w, n)) THEN Aborted(t)
              ELSE LET d == Read(Contents(t.w, n)) IN
                   IF Unknown(d) THEN [t EXCEPT !.unsure = TRUE, !.ph = "done"]
                   ELSE IF Usable(d) THEN [t EXCEPT !.ph = "test", !.started = TRUE, !.mode = "cmp", !.base = Measurements(d)]
                   ELSE Aborted(t)

-----------------------------------------------------------------------------
(* the comparison of the measurement m with the measurement b of a baseline: *)
(* "match", "differ", "unmatch", or "any" where it is not specified          *)
Same2(c) == IF c THEN "match" ELSE "differ"
Matches(x) == IF x = "yes" THEN "match" ELSE IF x = "no" THEN "differ" ELSE "any"
BaseFile(s, b) == LET f == Found(s.w, Tail_(b.text), s.paths) IN IF f # NoName THEN f ELSE b.text
FileText(s, path) ==     \* what a text file has, or that it cannot be read
  IF IsFile_(s.w, path) /\ Readable(s.w, path) THEN [ok |-> TRUE, v |-> Contents(s.w, path)] ELSE [ok |-> FALSE, v |-> <<>>]
(* images: one which the test has written itself, or that of a file *)
IMAGE == B("image/itk")
ImageAt(s, path) ==
  IF IsFile_(s.w, path) /\ Readable(s.w, path) /\ At_(s.w, path).at \in DOMAIN s.w.img THEN [ok |-> TRUE, v |-> s.w.img[At_(s.w, path).at]]
  ELSE [ok |-> FALSE, v |-> <<>>]
TestImage(s, m) == IF "img" \in DOMAIN m THEN [ok |-> TRUE, v |-> m.img] ELSE ImageAt(s, m.text)
JudgeImage(s, m, b) ==
  IF ~m.file \/ ~b.file THEN "any"
  ELSE LET x == ImageAt(s, BaseFile(s, b))  y == TestImage(s, m) IN Same2(x.ok /\ y.ok /\ ImagesMatch(x.v, y.v, s.itol))
Judge(s, m, b) ==
  IF m.name # b.name \/ m.type # b.type THEN "unmatch"
  ELSE IF m.type = IMAGE THEN JudgeImage(s, m, b)
  ELSE IF m.file \/ b.file
       THEN IF m.type # PLAIN THEN "any"
            ELSE LET f == IF m.file THEN FileText(s, m.text) ELSE [ok |-> TRUE, v |-> m.text]
                     g == IF b.file THEN FileText(s, BaseFile(s, b)) ELSE [ok |-> TRUE, v |-> DataOf(b.enc, b.text)]
                 IN  IF ~m.file /\ FileText(s, BaseFile(s, b)) # FileText(s, b.text) THEN "any"
                     ELSE IF f.ok /\ g.ok THEN Same2(f.v = g.v)
                     ELSE IF m.name # <<>> THEN "differ" ELSE "any"
  ELSE IF Numeric(m.type) /\ m.tol /\ b.enc = NoneEnc THEN Matches(NumberMatch(m.type, b.text, m.text, s.tol, m.exact))
  ELSE Same2(m.text = DataOf(b.enc, b.text))

(* a measurement is made *)
Verdict(s, m) == IF s.made < Len(s.base) THEN Judge(s, m, s.base[s.made + 1]) ELSE "unmatch"
ImagesOf(s, m) == [x |-> ImageAt(s, BaseFile(s, s.base[s.made + 1])), y |-> TestImage(s, m), tol |-> s.itol]
Measure(s, m) ==
  IF s.mode = "rec" THEN [s EXCEPT !.made = @ + 1]
  ELSE LET v == Verdict(s, m)
           p == IF s.made < Len(s.base) /\ s.base[s.made + 1].file /\ m.file THEN BaseFile(s, s.base[s.made + 1]) ELSE <<>>
       IN  [s EXCEPT !.made = @ + 1, !.mism = IF v \in {"differ", "unmatch"} THEN @ + 1 ELSE @,
                     !.log = Append(@, [v |-> v, p |-> p, i |-> IF v = "differ" /\ m.type = IMAGE THEN ImagesOf(s, m) ELSE <<>>]), !.unsure = @ \/ v = "any"]

(* what the test is told about n measurements, those after the first k: that *)
(* all of them are as they should be, or that some are not                   *)
Answer(s, k, n) ==
  IF s.mode = "rec" THEN "zero"
  ELSE LET v == {s.log[j].v : j \in k + 1..k + n} IN
       IF v \subseteq {"match"} THEN "zero" ELSE IF v \cap {"differ", "unmatch"} # {} THEN "other" ELSE "any"

(* what else can happen in the test *)
SetImageTol(s, v) == [s EXCEPT !.itol = v]
SetTol(s, v) == [s EXCEPT !.tol = v]
SetExp(s, v) == [s EXCEPT !.exp = v]
Change(s, w) == [s EXCEPT !.w = w]
Throw(s) == Aborted(s)
Return(s, v) == [s EXCEPT !.ph = "done", !.ret = v]

(* the result *)
Success == 0
Result(s) ==
  IF s.ret # s.exp THEN s.ret
  ELSE IF s.mode = "cmp" THEN s.mism ELSE Success
ResultIs(s, v) == IF s.failed THEN v # Success ELSE v = Result(s)

(* what is recorded for a measurement *)
Recorded(m) == [file |-> m.file, name |-> m.name, type |-> m.type, enc |-> NoneEnc, text |-> IF m.file THEN Tail_(m.text) ELSE m.text]
(* what is reported for one which did not match: [file, name, type, text],   *)
(* with text = <<>> and diff for a line difference                           *)
UNMATCHED == B("Unmatched ")  DIFFERENCE == B("Difference ")  TESTP == B("Test ")  BASELINE == B("Baseline ")
IMAGEERROR == B("ImageError ")  BSIZE == B("Baseline Size ")  TSIZE == B("Test ImageSize ")
BSPACING == B("Baseline Spacing ")  TSPACING == B("Test Spacing ")  BORIGIN == B("Baseline Origin ")  TORIGIN == B("Test Origin ")
(* the measurements which are made of something with several components: the *)
(* names count from 0, those of a matrix for each row and column; a region   *)
(* is an index and a size.  op: [kind, dims, name, tol, vals, exacts]        *)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
INT == B("numeric/integer")  DOUBLE == B("numeric/double")
Component(name, ty, tol, v, exact) == [k |-> "m", file |-> FALSE, name |-> name, type |-> ty, text |-> v, tol |-> tol, exact |-> exact]
Counted(name, k) == name \o <<95>> \o Digits(k)
Components(op) ==
  LET n == Len(op.vals)  h == n \div 2 IN
  [j \in 1..n |->
    Component(CASE op.kind = "region" -> IF j <= h THEN Counted(op.name \o B(" Index"), j - 1) ELSE Counted(op.name \o B(" Size"), j - 1 - h)
                [] op.kind = "matrix" -> Counted(Counted(op.name, (j - 1) \div op.cols), (j - 1) % op.cols)
                [] OTHER -> Counted(op.name, j - 1),
              IF op.kind \in {"size", "index", "region"} THEN INT ELSE DOUBLE, op.tol, op.vals[j], op.exacts[j])]

(* the same measurement, many times: where the baseline has nothing more for *)
(* them, only the numbers are kept (the log has the first of them)           *)
Unpaired(s, m, n) ==
  IF n = 0 THEN s
  ELSE LET t == Measure(s, m) IN [t EXCEPT !.made = @ + n - 1, !.mism = IF s.mode = "cmp" THEN @ + n - 1 ELSE @]
Many(s, m, n) == IF s.made >= Len(s.base) THEN Unpaired(s, m, n) ELSE FoldLeft(Measure, s, [j \in 1..n |-> m])
(* one thing which the test does *)
Did(s, op) ==
  CASE op.k = "m" -> Measure(s, op)
    [] op.k = "c" -> FoldLeft(Measure, s, Components(op))
    [] op.k = "many" -> Many(s, op.m, op.n)
    [] op.k = "itol" -> SetImageTol(s, op.v)
    [] op.k \in {"gen", "sub"} -> s
    [] op.k = "any" -> [s EXCEPT !.unsure = TRUE, !.ph = "done", !.mode = "none"]
    [] op.k \in {"throw", "exit", "kill"} -> Throw(s)
    [] op.k = "ret" -> Return(s, op.v)
    [] op.k = "rm" -> Change(s, RemoveFile(s.w, op.p))
    [] op.k = "put" -> Change(s, PutFile(s.w, op.p, op.c))
    [] op.k = "cd" -> Change(s, ChangeDir(s.w, op.p))
    [] op.k = "tol" -> SetTol(s, op.v)
    [] op.k = "exp" -> SetExp(s, op.v)

-----------------------------------------------------------------------------
(* An object of which several runs are made keeps its settings, and nothing  *)
(* else: those which the program sets, and those of the arguments and the    *)
(* test of the runs before.                                                  *)
SettingsOf(s) == [in |-> s.in, out |-> s.out, exp |-> s.exp, paths |-> s.paths, tol |-> s.tol, itol |-> s.itol]
SetOne(set, c) ==
  CASE c.k = "in" -> [set EXCEPT !.in = c.v]
    [] c.k = "out" -> [set EXCEPT !.out = c.v]
    [] c.k = "exp" -> [set EXCEPT !.exp = c.v]
    [] c.k = "tol" -> [set EXCEPT !.tol = c.v]
    [] c.k = "paths" -> [set EXCEPT !.paths = c.v]
    [] c.k = "pre" -> [set EXCEPT !.paths = <<c.v>> \o @]
SetAll(set, l) == FoldLeft(SetOne, set, l)
RECURSIVE Finish(_, _, _)
Finish(s, ops, j) ==
  CASE s.ph = "args" -> Finish(ParseOne(s), ops, j)
    [] s.ph = "begin" -> Finish(Begin(s), ops, j)
    [] s.ph = "test" -> IF j < Len(ops) THEN Finish(Did(s, ops[j + 1]), ops, j + 1) ELSE Return(s, 0)
    [] OTHER -> s
(* the settings after runs [args, sets, w, ops] with those before *)
AfterRuns(set, l) == FoldLeft(LAMBDA a, r : SettingsOf(Finish(Fresh(Tail(r.args), SetAll(a, r.sets), r.w), r.ops, 0)), set, l)
=============================================================================
