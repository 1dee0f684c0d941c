-------------------------------- MODULE Names --------------------------------
(* The names of files which a run generates: below a directory, if there is  *)
(* one, the name of the program, something which depends on its arguments,   *)
(* the number of the name, and the extension.                                *)
EXTENDS Path

UNDER == 95
RECURSIVE Decimal_(_)
Decimal_(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal_(n \div 10) \o <<48 + (n % 10)>>
Generated(program, mark, n, ext, dir) ==
  LET name == program \o <<UNDER>> \o mark \o <<UNDER>> \o Decimal_(n) \o <<PERIOD>> \o ext IN
    IF dir = <<>> THEN name ELSE AppendPath(dir, name)

(* what a user relies on: names is what was generated for reqs, each [ext, dir] *)
Distinct(names) == Cardinality({names[i] : i \in 1..Len(names)}) = Len(names)
HasExtension(name, ext) == LET n == Len(name) - Len(ext) IN n > 1 /\ name[n] = PERIOD /\ SubSeq(name, n + 1, Len(name)) = ext /\ name[n - 1] # SLASH
LiesIn(name, dir) == dir # <<>> => LET s == Stripped(dir) IN StartsWith(name, IF s = Root THEN s ELSE s \o Root)
NamesRight(reqs, names, program) ==
  /\ Len(names) = Len(reqs) /\ Distinct(names)
  /\ \A i \in 1..Len(reqs) : HasExtension(names[i], reqs[i].ext) /\ (IsAbsolute(program) \/ LiesIn(names[i], reqs[i].dir))
  /\ Cardinality({DirectoryName(names[i]) : i \in {j \in 1..Len(reqs) : reqs[j].dir = <<>>}}) <= 1
=============================================================================
