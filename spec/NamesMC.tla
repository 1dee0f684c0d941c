------------------------------- MODULE NamesMC -------------------------------
(* Runs which generate names, for whatever extensions and directories, one   *)
(* after the other, with whatever mark the arguments get; and a second run   *)
(* with the same arguments.                                                  *)
EXTENDS Names
CONSTANTS Most
Programs == {B("p"), B("p_1"), B("b/p"), B("/p"), B("1.a")}
Marks == {B("0"), B("1"), B("f_2")}
Exts == {B("a"), B("a.b"), B("1.a"), <<>>}
Dirs == {<<>>, B("d"), B("d/"), B("/"), B("p_1"), B("./d")}
VARIABLES program, mark, reqs, names, again
vars == <<program, mark, reqs, names, again>>
Init == program \in Programs /\ mark \in Marks /\ reqs = <<>> /\ names = <<>> /\ again = <<>>
Generate == /\ Len(reqs) < Most /\ again = <<>>
            /\ \E e \in Exts, d \in Dirs : reqs' = Append(reqs, [ext |-> e, dir |-> d])
                                        /\ names' = Append(names, Generated(program, mark, Len(names) + 1, e, d))
            /\ UNCHANGED <<program, mark, again>>
Again == /\ Len(again) < Len(reqs)
         /\ LET q == reqs[Len(again) + 1] IN again' = Append(again, Generated(program, mark, Len(again) + 1, q.ext, q.dir))
         /\ UNCHANGED <<program, mark, reqs, names>>
Next == Generate \/ Again
Spec == Init /\ [][Next]_vars
Right == NamesRight(reqs, names, program)
Same == \A k \in 1..Len(again) : again[k] = names[k]
=============================================================================
