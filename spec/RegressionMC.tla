---------------------------- MODULE RegressionMC ----------------------------
(* All runs with few arguments and measurements in a small world: two        *)
(* baselines of the same name, a malformed one, a directory, in which files  *)
(* may vanish or change and the directory may be left while the test runs.   *)
EXTENDS Regression
CONSTANTS MaxArgs, MaxMade, FewArgs

PlainM(n, t) == [file |-> FALSE, name |-> n, type |-> PLAIN, text |-> t, tol |-> FALSE, exact |-> FALSE]
IntM(n, t) == [file |-> FALSE, name |-> n, type |-> TINT, text |-> t, tol |-> TRUE, exact |-> TRUE]
A == PlainM(<<97>>, <<120>>)      \* a: x
A2 == PlainM(<<97>>, <<121>>)     \* a: y
I1 == IntM(<<97>>, <<49>>)        \* a: 1, another type
B1 == PlainM(<<98>>, <<120>>)     \* b: x
F1 == [PlainM(<<97>>, <<102>>) EXCEPT !.file = TRUE]   \* the file f
Tests == {A, A2, I1, B1, F1}
As(m) == [file |-> m.file, name |-> m.name, type |-> m.type, enc |-> NoneEnc, text |-> m.text]
Bases == {<<>>, <<A>>, <<A2>>, <<I1>>, <<A, B1>>, <<B1, A>>, <<F1>>}
Doc(l) == Document([k \in 1..Len(l) |-> As(l[k])])
Docs == [l \in Bases |-> Doc(l)]

rt == B("/w")
f_ == <<102>>  g_ == <<103>>  d_ == <<100>>  o_ == <<111>>  five == <<53>>
TheWorld(l, m) ==
  World((<<>> :> DirNode(493)) @@ (<<d_>> :> DirNode(493)) @@ (<<f_>> :> FileNode(420)) @@ (<<d_, f_>> :> FileNode(420)) @@ (<<g_>> :> FileNode(420)),
        rt, (<<f_>> :> Docs[l]) @@ (<<d_, f_>> :> Docs[m]) @@ (<<g_>> :> SubSeq(Docs[l], 1, Len(Docs[l]) - 6)), <<>>, FALSE)
Tokens == {OPTI, OPTO, OPTR, OPTP, f_, g_, d_, o_, five}

VARIABLES s, args, docs, hist, calm
vars == <<s, args, docs, hist, calm>>
Few == {<<>>, <<OPTI, f_>>, <<OPTI, f_, OPTR, five>>, <<OPTP, d_, OPTI, f_>>, <<OPTO, o_>>}
Init == /\ args \in (IF FewArgs THEN Few ELSE UNION {[1..n -> Tokens] : n \in 0..MaxArgs})
        /\ docs \in {<<l, m>> : l \in Bases, m \in {<<>>, <<A>>}}
        /\ s = Fresh(args, Settings, TheWorld(docs[1], docs[2]))
        /\ hist = <<>>
        /\ calm = TRUE
Parse == s.ph = "args" /\ s' = ParseOne(s) /\ UNCHANGED <<args, docs, hist, calm>>
Prepare == s.ph = "begin" /\ s' = Begin(s) /\ UNCHANGED <<args, docs, hist, calm>>
Measured == /\ s.ph = "test" /\ s.made < MaxMade
            /\ \E m \in Tests : s' = Measure(s, m) /\ hist' = Append(hist, [m |-> m, w |-> s.w])
            /\ UNCHANGED <<args, docs, calm>>
Thrown == s.ph = "test" /\ s' = Throw(s) /\ UNCHANGED <<args, docs, hist, calm>>
Returned == s.ph = "test" /\ (\E v \in {0, 5} : s' = Return(s, v)) /\ UNCHANGED <<args, docs, hist, calm>>
Disturbed == /\ calm /\ calm' = FALSE /\ s.ph = "test" /\ s.made = 1 /\ s.w.cwd = <<>>
             /\ s' \in {Change(s, RemoveFile(s.w, f_)), Change(s, ChangeDir(s.w, d_)), Change(s, PutFile(s.w, f_, <<120>>))}
             /\ s' # s
             /\ UNCHANGED <<args, docs, hist>>
Next == Parse \/ Prepare \/ Measured \/ Thrown \/ Returned \/ Disturbed
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Next)

(* the arguments, by looking at all of them at once *)
RECURSIVE Pairs(_)
Pairs(a) == IF Len(a) < 2 \/ a[1] \notin Options THEN <<>> ELSE <<<<a[1], a[2]>>>> \o Pairs(Drop(a, 2))
Of(o) == SelectSeq(Pairs(args), LAMBDA p : p[1] = o)
Left == Drop(args, 2 * Len(Pairs(args)))
ArgsUsable == /\ (Left = <<>> \/ Head(Left) \notin Options)
              /\ \A k \in 1..Len(Of(OPTI)) : Of(OPTI)[k][2] \in {f_, g_}
              /\ \A k \in 1..Len(Of(OPTP)) : Of(OPTP)[k][2] = d_
ArgumentsConsumed == s.started => /\ ArgsUsable /\ s.rest = Left
  /\ (Of(OPTR) # <<>> => s.exp = IF Last1(Of(OPTR))[2] = five THEN 5 ELSE 0)
  /\ s.in = (IF Of(OPTI) = <<>> THEN NoName ELSE Last1(Of(OPTI))[2])
  /\ s.out = (IF Of(OPTO) = <<>> THEN NoName ELSE Last1(Of(OPTO))[2])
  /\ s.mode = (IF Of(OPTI) = <<>> THEN "rec" ELSE "cmp")
  /\ (s.mode = "cmp" => s.base = LET l == IF Of(OPTP) # <<>> /\ s.in = f_ THEN docs[2] ELSE docs[1] IN [k \in 1..Len(l) |-> As(l[k])])
Unusable == ~ArgsUsable => ~s.started /\ (s.ph = "done" => s.failed)
(* a malformed baseline, and one which was made the output as well *)
NoBaseline == (s.in # NoName /\ (s.in = g_ \/ (s.in = s.out /\ Of(OPTP) = <<>>))) => ~s.started
FailureIsNoSuccess == s.failed => ~ResultIs(s, Success)
Ends == s.ph = "done"
Mode2 == s.started => s.mode \in {"rec", "cmp"}
(* the verdicts, from the history *)
EqualAt(k) ==
  LET m == hist[k].m IN
    k <= Len(s.base) /\ m.name = s.base[k].name /\ m.type = s.base[k].type
    /\ LET content(file, t, w) == IF ~file THEN <<1>> \o t ELSE IF <<f_>> \in DOMAIN w.fs /\ w.cwd = <<>> THEN <<1>> \o w.data[<<f_>>]
                                  ELSE IF w.cwd # <<>> THEN <<1>> \o w.data[<<d_, f_>>] ELSE <<0>>
           bas(w) == IF s.base[k].file /\ s.paths # <<>> /\ m.file /\ w.cwd = <<>> THEN <<1>> \o w.data[<<d_, f_>>] ELSE content(s.base[k].file, s.base[k].text, w)
           a == content(m.file, m.text, hist[k].w)
           b == bas(hist[k].w)
       IN  a = b /\ a # <<0>>
Positions == (s.mode = "cmp" /\ ~s.unsure) => /\ Len(s.log) = Len(hist)
                                /\ \A k \in 1..Len(hist) : s.log[k].v = "match" <=> EqualAt(k)
AllCounted == s.mode = "cmp" => s.mism = Len(SelectSeq(s.log, LAMBDA e : e.v \in {"differ", "unmatch"}))
(* what the test was told adds up to the result, and is told of all of them  *)
(* together if it is told of each of them                                    *)
AnswersRight == (s.mode \in {"rec", "cmp"} /\ ~s.unsure) =>
  /\ Cardinality({j \in 1..s.made : Answer(s, j - 1, 1) = "other"}) = (IF s.mode = "rec" THEN 0 ELSE s.mism)
  /\ \A k \in 0..s.made : \A n \in 0..s.made - k : Answer(s, k, n) = IF \E j \in k + 1..k + n : Answer(s, j - 1, 1) = "other" THEN "other" ELSE "zero"
ResultRight == (s.ph = "done" /\ ~s.failed /\ ~s.unsure) =>
  /\ (Result(s) = Success <=> ((s.ret = s.exp /\ s.mism = 0) \/ (s.ret = 0 /\ s.exp # 0)))
  /\ (s.ret = s.exp /\ s.mode = "rec" => Result(s) = Success)
(* many measurements are as many single ones *)
ManyRight == (s.ph = "test" /\ s.made <= 1) =>
  \A m \in Tests : \A n \in 0..3 :
    LET a == Many(s, m, n)  b == FoldLeft(Measure, s, [j \in 1..n |-> m]) IN
      [a EXCEPT !.log = <<>>] = [b EXCEPT !.log = <<>>] /\ StartsWith(b.log, a.log)
BaselineStays == [][s.started => s'.base = s.base /\ s'.mode = s.mode /\ s'.rest = s.rest]_vars
NothingIsTakenBack == [][s'.mism >= s.mism /\ StartsWith(s'.log, s.log) /\ (s.failed => s'.failed)]_vars
Terminates == <>(s.ph = "done")
=============================================================================
