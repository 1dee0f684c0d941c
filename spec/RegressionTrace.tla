--------------------------- MODULE RegressionTrace ---------------------------
(* Observed runs, replayed step by step in the model of Regression; what was *)
(* observed has to be what the model says, as far as the invariants of a     *)
(* configuration ask.                                                        *)
EXTENDS Tools, ImageReport, Json, IOUtils
D == INSTANCE Diff

Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES from, off, k, s
Ob == Obs[from]

(* the world as it was made *)
Node(e) == CASE e.k = "dir" -> DirNode(e.m) [] e.k = "file" -> FileNode(e.m) [] e.k = "fifo" -> FifoNode(e.m) [] e.k = "link" -> LinkNode(e.c)
Made(o) ==
  FoldLeft(LAMBDA w, e : LET at == Place(o.root, e.p) IN
             [w EXCEPT !.fs = (at :> Node(e)) @@ w.fs, !.data = IF e.k = "file" THEN (at :> e.c) @@ w.data ELSE w.data,
                       !.img = IF "img" \in DOMAIN e THEN (at :> e.img) @@ w.img ELSE w.img],
           World(EmptyFs, o.root, <<>>, o.cwd, o.other), o.tree)

Init == from \in 1..Len(Obs) /\ off = 0 /\ k = 0 /\ s = [ph |-> "load"]
(* what the test does: it is given, or that of one of the programs *)
Script == IF "tool" \notin DOMAIN Ob THEN Ob.ops
          ELSE IF Ob.tool = "pipe" THEN PipeOps(Ob.child) ELSE ImageOps(s.rest)
(* the settings at the beginning: those of a new object, or of one of which  *)
(* there were runs before                                                    *)
Given == IF "earlier" \in DOMAIN Ob
         THEN SetAll(AfterRuns([Settings EXCEPT !.paths = Ob.paths], [j \in 1..Len(Ob.earlier) |-> LET e == Ob.earlier[j] IN [args |-> e.args, sets |-> e.sets, w |-> Made(e), ops |-> e.ops]]), Ob.sets)
         ELSE [in |-> Ob.set.in, out |-> Ob.set.out, exp |-> Ob.set.exp, paths |-> Ob.set.paths, tol |-> Ob.set.tol, itol |-> Exactly]
Load == s.ph = "load" /\ s' = Fresh(Tail(Ob.args), Given, Made(Ob)) /\ k' = k
Parse == s.ph = "args" /\ s' = ParseOne(s) /\ k' = k
(* the measurements of a script *)
Flat(ops) == FoldLeft(LAMBDA a, op : IF op.k = "m" THEN Append(a, op) ELSE IF op.k = "c" THEN a \o Components(op) ELSE IF op.k = "many" THEN a \o [j \in 1..op.n |-> op.m] ELSE a, <<>>, ops)
(* a baseline which the framework recorded itself: the model does not look   *)
(* at the file, but knows what was measured (orig) when it was written       *)
BeginWith(ops) == LET l == Flat(ops)  o == OpenOut(s) IN
  IF ~o.ok THEN Aborted(s) ELSE [s EXCEPT !.w = o.w, !.ph = "test", !.started = TRUE, !.mode = "cmp", !.base = [j \in 1..Len(l) |-> Recorded(l[j])]]
Prepare == s.ph = "begin" /\ s' = (IF "orig" \in DOMAIN Ob THEN BeginWith(Ob.orig) ELSE Begin(s)) /\ k' = k
Operate == /\ s.ph = "test"
           /\ LET l == Script IN IF k < Len(l) THEN s' = Did(s, l[k + 1]) /\ k' = k + 1
              ELSE s' = Return(s, 0) /\ k' = k
Next == (Load \/ Parse \/ Prepare \/ Operate) /\ UNCHANGED <<from, off>>
Spec == Init /\ [][Next]_<<from, off, k, s>>
View == <<from, k, s.ph, IF s.ph = "args" THEN Len(s.rest) ELSE 0>>

-----------------------------------------------------------------------------
Over == s.ph = "done"
NoCrash == Ob.crash = 0
Observed == Over /\ Ob.crash = 0
HasResult == Ob.has = 1
(* the test ended the process *)
Died == s.failed /\ s.started /\ k > 0 /\ Ob.ops[k].k \in {"exit", "kill"}

(* the run came to an end, and Main gave a result *)
Ended == (Observed /\ ~Died) => HasResult /\ Ob.sig = 0
(* the test was called once if the preparation was done, and else not        *)
NotStarted == (Observed /\ ~s.unsure /\ ~s.started) => Ob.ntest = 0
StartedOnce == (Observed /\ ~s.unsure /\ s.started) => Ob.ntest = 1 /\ Len(Ob.ms) = Cardinality({j \in 1..k : Ob.ops[j].k \in {"m", "c", "many"}})
(* runs which were made in it *)
SubsRight == (Observed /\ ~s.unsure) => Ob.subs = IF s.started THEN Cardinality({j \in 1..k : Ob.ops[j].k = "sub"}) ELSE 0
FailRight == (Observed /\ ~s.unsure /\ s.failed) => IF Died THEN Ob.sig # 0 \/ Ob.code # 0 ELSE HasResult /\ Ob.res.v # Success
(* a test which did not return what was expected *)
RetRight == (Observed /\ ~s.unsure /\ ~s.failed /\ s.ret # s.exp) => HasResult /\ Ob.res.v = s.ret
CountRight == (Observed /\ ~s.unsure /\ ~s.failed /\ s.ret = s.exp) => HasResult /\ Ob.res.v = Result(s)
(* the programs have an exit status of eight bits *)
StatusRight == (Observed /\ ~s.unsure) => Ob.sig = 0 /\ IF s.failed THEN Ob.code # 0 ELSE Ob.code = Result(s) % 256
ModeSteady == (Observed /\ ~s.unsure /\ s.started) =>
  /\ Ob.ntest > 0 => (Ob.test.cmp = 1 <=> s.mode = "cmp")
  /\ \A j \in 1..Len(Ob.ms) : Ob.ms[j].cmp = 1 <=> s.mode = "cmp"
(* arguments *)
ArgsRight == (Observed /\ ~s.unsure /\ s.started) => Ob.ntest = 1 /\ Ob.test.argv = <<Ob.args[1]>> \o s.rest /\ Ob.test.argc = 1 + Len(s.rest)
NamesRight == (Observed /\ ~s.unsure /\ s.started /\ ~s.failed) =>
  HasResult /\ Ob.res.in = s.in /\ Ob.res.out = s.out /\ Ob.res.exp = s.exp
(* the places where output may be, with what is there after the run *)
Out(n) == Ob.outs[CHOOSE j \in 1..Len(Ob.outs) : Ob.outs[j].n = n]
OthersStay == (Observed /\ ~s.unsure /\ s.started /\ Ob.disturbed = 0) =>
  \A j \in 1..Len(Ob.outs) : LET o == Ob.outs[j]  w == Made(Ob)  r == At_(w, o.n) IN
    (o.n # <<>> /\ (s.out = <<>> \/ At_(s.w, o.n) # At_(s.w, s.out))) =>
       IF r.ok /\ w.fs[r.at].k = "file" THEN o.there = 1 /\ (r.at \in DOMAIN w.img \/ o.c = w.data[r.at]) ELSE r.ok \/ o.there = 0
Output == Out(s.out).c

-----------------------------------------------------------------------------
Ms == Flat(Script)
(* reports: the elements which have to be there *)
Item(file, pre, m, enc, texts) == [file |-> file, name |-> pre \o m.name, type |-> m.type, enc |-> enc, texts |-> texts, diff |-> FALSE]
Reports(j) ==
  LET m == Ms[j]  e == s.log[j] IN
    IF e.v = "match" THEN <<>>
    ELSE IF e.v = "unmatch" THEN <<Item(m.file, UNMATCHED, m, NoneEnc, {m.text})>>
    ELSE LET b == s.base[j] IN
      IF ~m.file /\ m.type = PLAIN
      THEN <<[Item(FALSE, DIFFERENCE, m, NoneEnc, {}) EXCEPT !.diff = TRUE, !.texts = IF b.file \/ b.enc # NoneEnc THEN {} ELSE {b.text}]>>
      ELSE <<Item(m.file, TESTP, m, NoneEnc, {m.text}), Item(b.file, BASELINE, m, IF b.file THEN NoneEnc ELSE b.enc, {b.text} \cup (IF e.p = <<>> THEN {} ELSE {e.p}))>>
(* made: how many measurements were made before the run ended *)
Expected == FoldLeftDomain(LAMBDA a, j : a \o [i \in 1..Len(Reports(j)) |-> [r |-> Reports(j)[i], at |-> j]], <<>>, s.log)
Wrapped_ == Wrapped(Output)
FaithfulItem(x, it) ==
  LET r == x.r  g == AsMeasurement(it) IN
    /\ IsMeasurement(it) /\ ~it.deep
    /\ g.file = r.file /\ g.name = r.name /\ g.type = r.type
    /\ HasAttr(it, NAME_) /\ HasAttr(it, TYPE_)
    /\ IF r.diff THEN \A b \in r.texts : D!IsDiff(b, Ms[x.at].text, g.text) ELSE g.text \in r.texts /\ g.enc = r.enc
Reporting == Observed /\ ~s.unsure /\ s.mode = "cmp" /\ ~s.failed
ReportsRight == Reporting => LET w == Wrapped_  e == Expected IN
  /\ WellFormed(w) /\ ~w.stray
  /\ Len(w.items) = Len(e)
  /\ \A j \in 1..Len(e) : FaithfulItem(e[j], w.items[j])
(* which measurements were reported, by their names *)
PairRight == Reporting => LET w == Wrapped_  e == Expected IN
  /\ WellFormed(w)
  /\ [j \in 1..Len(w.items) |-> AsMeasurement(w.items[j]).name] = [j \in 1..Len(e) |-> e[j].r.name]

(* the verdict for each measurement of a run in which all have names of      *)
(* their own, even if that for some of them is not specified                 *)
(* (the reports of differences of images may be at the standard output)     *)
ItemsOf(bytes) == LET w == Wrapped(bytes) IN [j \in 1..Len(w.items) |-> AsMeasurement(w.items[j])]
ReportItems == ItemsOf(Output) \o (IF s.out # <<>> /\ (\E j \in 1..Len(s.log) : s.log[j].i # <<>>) THEN ItemsOf(Out(<<>>).c) ELSE <<>>)
ReportNames == LET l == ReportItems IN {l[j].name : j \in 1..Len(l)}
ImageReported(n, all) == IMAGEERROR \o n \in all \/ BSIZE \o n \in all
VerdictIs(v, n, all) ==
  LET t == TESTP \o n \in all  bl == BASELINE \o n \in all  i == ImageReported(n, all)
      d == DIFFERENCE \o n \in all  u == UNMATCHED \o n \in all IN
    CASE v = "match" -> ~t /\ ~bl /\ ~d /\ ~u /\ ~i
      [] v = "differ" /\ i -> ~u
      [] v = "differ" -> ~u /\ ((t /\ bl /\ ~d) \/ (d /\ ~t /\ ~bl))
      [] v = "unmatch" -> u /\ ~t /\ ~bl /\ ~d /\ ~i
      [] OTHER -> TRUE
Reported(n, all) == ImageReported(n, all) \/ TESTP \o n \in all \/ DIFFERENCE \o n \in all \/ UNMATCHED \o n \in all
Swapped(j) == /\ s.base[j].type = s.base[j + 1].type /\ Ms[j].type = s.base[j].type /\ Ms[j + 1].type = s.base[j].type
              /\ Ms[j].tol = Ms[j + 1].tol /\ s.base[j].text = Ms[j + 1].text /\ s.base[j + 1].text = Ms[j].text
              /\ s.log[j].v # "unmatch" /\ s.log[j + 1].v # "unmatch"
VerdictRight == (Observed /\ s.started /\ s.mode = "cmp" /\ ~s.failed) =>
  LET all == ReportNames IN
    /\ HasResult
    /\ \A j \in 1..Len(s.log) : VerdictIs(s.log[j].v, Ms[j].name, all)
    /\ (s.ret = s.exp => Ob.res.v = Cardinality({j \in 1..Len(s.log) : Reported(Ms[j].name, all)}))
(* measurements which are made both ways round *)
SymmetricRight == (Observed /\ s.started /\ s.mode = "cmp" /\ ~s.failed) =>
  LET all == ReportNames IN
    \A j \in 1..(IF Len(s.log) < Len(s.base) THEN Len(s.log) ELSE Len(s.base)) - 1 :
       (j % 2 = 1 /\ Swapped(j)) => (Reported(Ms[j].name, all) <=> Reported(Ms[j + 1].name, all))

(* what the test was told of each measurement, also if it did not come to    *)
(* its end; where the model does not know, it has to agree with the report   *)
Told == SelectSeq(Script, LAMBDA op : op.k \in {"m", "c"})
CountOf(op) == IF op.k = "c" THEN Len(Components(op)) ELSE 1
AnswerRight == (Observed /\ s.started /\ "cmp" \in DOMAIN Ob.test) =>
  LET ends == FoldLeft(LAMBDA a, op : Append(a, (IF a = <<>> THEN 0 ELSE Last(a)) + CountOf(op)), <<>>, Told)
      seen == {j \in 1..Len(Ob.ms) : j <= Len(ends) /\ (s.mode = "rec" \/ ends[j] <= Len(s.log))}
      whole == HasResult /\ ~s.failed /\ s.mode = "cmp" /\ \A i, j \in 1..Len(Ms) : i # j => Ms[i].name # Ms[j].name
      all == IF whole THEN ReportNames ELSE {} IN
    /\ (\A j \in 1..Len(Ob.ms) : j \in seen)
    /\ \A j \in seen :
         LET n == CountOf(Told[j])  a == Answer(s, ends[j] - n, n) IN
         CASE a = "zero" -> Ob.ms[j].r = 0
           [] a = "other" -> Ob.ms[j].r # 0
           [] OTHER -> whole => (Ob.ms[j].r # 0 <=> \E i \in ends[j] - n + 1..ends[j] : Reported(Ms[i].name, all))

(* a recording *)
Recording == Observed /\ ~s.unsure /\ s.mode = "rec" /\ ~s.failed
RecordRight == Recording => LET d == Read(Output) IN
  /\ Usable(d) /\ ~d.stray
  /\ \A j \in 1..Len(d.items) : IsMeasurement(d.items[j]) /\ HasAttr(d.items[j], NAME_) /\ HasAttr(d.items[j], TYPE_)
  /\ LET r == [j \in 1..Len(d.items) |-> AsMeasurement(d.items[j])] IN
     /\ Len(r) = Len(Ms)
     /\ \A j \in 1..Len(r) : r[j] = [Recorded(Ms[j]) EXCEPT !.type = IF ~Ms[j].file THEN @ ELSE r[j].type,
                                                            !.text = IF "img" \in DOMAIN Ms[j] THEN r[j].text ELSE @]
                          /\ AttrOf(d.items[j], TYPE_, <<>>) = Ms[j].type

(* images which the test wrote itself are in files of their own *)
WrittenRight == Recording =>
  LET d == Read(Output)
      r == [j \in 1..Len(d.items) |-> AsMeasurement(d.items[j]).text]
      I == {j \in 1..Len(Ms) : "img" \in DOMAIN Ms[j]} IN
  Len(r) = Len(Ms) /\ \A j \in I :
    /\ \E f \in 1..Len(Ob.files) : Ob.files[f].n = r[j] /\ Ob.files[f].img = Ms[j].img
    /\ \A i \in I : r[i] = r[j] => i = j

(* what is reported of two images which were read: the number of different   *)
(* pixels, or the sizes; the spacings and origins if they are different; and *)
(* pictures                                                                  *)
Number_(x) == IF x < 100 THEN Digits(x) ELSE Digits(x \div 100) \o <<48 + (x % 100) \div 10, 48 + (x % 10)>>
Numbers(t) == LET u == Trimmed(t)  p == Split(SubSeq(u, 2, Len(u) - 1), 44) IN
  IF Len(u) >= 2 /\ u[1] = 91 /\ Last(u) = 93 THEN [j \in 1..Len(p) |-> Trimmed(p[j])] ELSE <<>>
Called(l, n) == SelectSeq(l, LAMBDA x : x.name = n)
Shown(l, pre, n, numbers) == Len(Called(l, pre \o n)) = 1 /\ SameNumbers(Numbers(Called(l, pre \o n)[1].text), numbers)
(* spacings and origins are shown with a few digits *)
Roughly(t, u) == LeqAbs(Sub(R(t), R(u)), Mul(R(B("1e-5")), R(u)))
ShownRoughly(l, pre, n, numbers) == /\ Len(Called(l, pre \o n)) = 1
  /\ LET v == Numbers(Called(l, pre \o n)[1].text) IN Len(v) = Len(numbers) /\ \A i \in 1..Len(v) : Roughly(v[i], numbers[i])
ShownNumber(l, pre, n, x) == Len(Called(l, pre \o n)) = 1 /\ SameNumber(Called(l, pre \o n)[1].text, Number_(x))
Silent(l, pre, n) == Called(l, pre \o n) = <<>>
Sizes_(z) == [j \in 1..Len(z) |-> Number_(z[j])]
Plain_(path) == SelectSeq(Names(path), LAMBDA n : n # Here)
SameName(n, j) == \E i \in 1..Len(Ms) : i # j /\ Ms[i].name = n
Pictures_(l, n, c) == LET p == Called(l, DIFFERENCE \o n) IN
  Len(p) = c /\ \A i \in 1..c : p[i].file /\ p[i].type = B("image/png") /\ \E f \in 1..Len(Ob.files) : Plain_(Ob.files[f].n) = Plain_(p[i].text)
ImageReportOf(l, n, e) ==
  LET x == e.i.x.v  y == e.i.y.v IN
    IF x.size # y.size THEN Shown(l, BSIZE, n, Sizes_(x.size)) /\ Shown(l, TSIZE, n, Sizes_(y.size)) /\ Silent(l, IMAGEERROR, n)
    ELSE /\ ShownNumber(l, IMAGEERROR, n, Count(x.size, x.pix, y.pix, e.i.tol.int, e.i.tol.rad))
         /\ Silent(l, BSIZE, n) /\ Silent(l, TSIZE, n)
         /\ IF SameNumbers(x.spacing, y.spacing) THEN Silent(l, BSPACING, n) /\ Silent(l, TSPACING, n)
            ELSE ShownRoughly(l, BSPACING, n, x.spacing) /\ ShownRoughly(l, TSPACING, n, y.spacing)
         /\ IF SameNumbers(x.origin, y.origin) THEN Silent(l, BORIGIN, n) /\ Silent(l, TORIGIN, n)
            ELSE ShownRoughly(l, BORIGIN, n, x.origin) /\ ShownRoughly(l, TORIGIN, n, y.origin)
         /\ Pictures_(l, n, 3)
ImageReportRight == (Observed /\ s.started /\ s.mode = "cmp" /\ ~s.failed) =>
  LET l == ReportItems IN
    \A j \in 1..Len(s.log) : (s.log[j].i # <<>> /\ s.log[j].i.x.ok /\ s.log[j].i.y.ok) => ImageReportOf(l, Ms[j].name, s.log[j])

(* of what kind they are, where that is different *)
KindsOf(l, n) == SelectSeq(l, LAMBDA x : \E q \in KindNames : x.name = q \o n)
ImageKindsOf(l, n, e) ==
  LET x == e.i.x.v  y == e.i.y.v  o == KindsOf(l, n)  w == IF x.size # y.size THEN <<>> ELSE Kinds(x, y) IN
    /\ Len(o) = Len(w)
    /\ \A j \in 1..Len(w) : \E i \in 1..Len(o) : ~o[i].file /\ o[i].name = w[j][1] \o n /\ o[i].text = w[j][2]
ImageKindsRight == (Observed /\ s.started /\ s.mode = "cmp" /\ ~s.failed) =>
  LET l == ReportItems IN
    \A j \in 1..Len(s.log) : (s.log[j].i # <<>> /\ s.log[j].i.x.ok /\ s.log[j].i.y.ok) => ImageKindsOf(l, Ms[j].name, s.log[j])
(* and the pictures show their middle slices and the difference.  Those of   *)
(* another measurement whose image has the same name are at the same place.  *)
ImageName(j) == LET p == Names(Ms[j].text) IN Last(p)
Pair(e) == e.i # <<>> /\ e.i.x.ok /\ e.i.y.ok
InFile(n) == {f \in 1..Len(Ob.files) : Plain_(Ob.files[f].n) = <<n>>}
ShownIn(n, size, v) == Wide(Middle(size, v)) \/
  (InFile(n) # {} /\ \A f \in InFile(n) : /\ "pic" \in DOMAIN Ob.files[f] /\ Ob.files[f].pic.size = <<size[1], size[2]>>
                                          /\ Shows(Ob.files[f].pic.v, Middle(size, v)))
ImagePicturesOf(j) ==
  LET e == s.log[j]  x == e.i.x.v  y == e.i.y.v  n == ImageName(j) IN
    x.size = y.size =>
      \A w \in Views(x, y, e.i.tol) :
        (w[1] = DIFF /\ ~Sharp(x.size, x.pix, y.pix, e.i.tol.int, e.i.tol.rad)) \/ ShownIn(n \o w[1], x.size, w[2])
ImagePicturesRight == (Observed /\ s.started /\ s.mode = "cmp" /\ ~s.failed) =>
  \A j \in 1..Len(s.log) : (Pair(s.log[j]) /\ "img" \notin DOMAIN Ms[j]) =>
     \/ \E i \in j + 1..Len(s.log) : Pair(s.log[i]) /\ s.log[i].i.x.v.size = s.log[i].i.y.v.size /\ ("img" \in DOMAIN Ms[i] \/ ImageName(i) = ImageName(j))
     \/ ImagePicturesOf(j)

(* what a run leaves which was ended is no baseline *)
LeftoverRight == (Observed /\ ~s.unsure /\ s.mode = "rec" /\ s.failed) => ~Usable(Read(Output))

(* where it went wrong *)
WrongVerdicts == LET all == ReportNames IN
  {[at |-> j, name |-> Ms[j].name, model |-> s.log[j].v, base |-> IF j > Len(s.base) THEN <<>> ELSE s.base[j].text, text |-> Ms[j].text] :
     j \in {i \in 1..Len(s.log) : ~VerdictIs(s.log[i].v, Ms[i].name, all)}}
Wrong == [from |-> from, off |-> off, wrong |-> IF Observed THEN WrongVerdicts ELSE {}]
Short == [from |-> from, off |-> off, k |-> k,
          model |-> IF s.ph = "load" THEN <<>> ELSE [ph |-> s.ph, started |-> s.started, failed |-> s.failed, mode |-> s.mode, mism |-> s.mism, ret |-> s.ret, exp |-> s.exp,
                     in |-> s.in, out |-> s.out, rest |-> s.rest, log |-> s.log]]
==============================================================================
