-------------------------- MODULE MeasurementDataMC --------------------------
(* The design with a cache of the data, which refines the specification: the *)
(* cache is thrown away whenever text or encoding change, and not copied.    *)
EXTENDS MeasurementData
CONSTANTS Texts, Datas, Encs
MCTexts == {<<>>, B("QUI="), B("QUJD"), B("AB"), B("Q UJD"), B("!")}
MCDatas == {<<>>, <<0>>, B("AB"), B("QUJD"), <<255, 0, 10>>}
MCEncs == {NoneEnc, B64Enc, B("uu")}
VARIABLES o, cache, known          \* o: the objects; cache, known: the caches, and whether there is one
vars == <<o, cache, known>>
Labels == {"a", "b"}
Init == /\ o = [l \in Labels |-> Object("plain")]
        /\ cache = [l \in Labels |-> <<>>] /\ known = [l \in Labels |-> FALSE]
Drop_(l) == known' = [known EXCEPT ![l] = FALSE] /\ UNCHANGED cache
DoText(l) == \E t \in Texts : o' = [o EXCEPT ![l] = SetText(@, t)] /\ Drop_(l)
DoEnc(l)  == \E e \in Encs : o' = [o EXCEPT ![l] = SetEnc(@, e)] /\ Drop_(l)
DoData(l) == \E d \in Datas : \E p \in SetData(o[l], d) : o' = [o EXCEPT ![l] = p] /\ Drop_(l)
DoRead(l) == /\ ~known[l]
             /\ known' = [known EXCEPT ![l] = TRUE]
             /\ cache' = [cache EXCEPT ![l] = Data(o[l])] /\ UNCHANGED o
DoAssign(l, m) == o' = [o EXCEPT ![l] = Copied(@, o[m])] /\ Drop_(l)
Next == \E l \in Labels : DoText(l) \/ DoEnc(l) \/ DoData(l) \/ DoRead(l) \/ \E m \in Labels : DoAssign(l, m)
Spec == Init /\ [][Next]_vars

Coherent == \A l \in Labels : known[l] => cache[l] = Data(o[l])
(* what is set as data is what is read, if it is not empty and the text that *)
(* stands for it is not changed                                              *)
DataComesBack == \A d \in Datas, e \in Encs : d # <<>> /\ e \in {NoneEnc, B64Enc} => DataOf(e, TextFor(e, d)) = d
EqualRelation == /\ \A l \in Labels : Equal(o[l], o[l])
                 /\ Equal(o["a"], o["b"]) = Equal(o["b"], o["a"])
OnlyIts == [][\A l \in Labels : o'[l] # o[l] => \A m \in Labels \ {l} : o'[m] = o[m]]_vars
==============================================================================
