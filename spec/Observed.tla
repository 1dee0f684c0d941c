------------------------------ MODULE Observed ------------------------------
(* Observations of the real code, one JSON object per line of the file OBS. *)
(* The states are the observations, in runs of Chunk, so that all workers   *)
(* have something to do.                                                    *)
EXTENDS Integers, Sequences, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.OBS)
Chunk == IF "CHUNK" \in DOMAIN IOEnv THEN atoi(IOEnv.CHUNK) ELSE 32

VARIABLES from, off
Init == from \in {Chunk * k : k \in 0..((Len(Obs) - 1) \div Chunk)} /\ off = 0
Next == /\ off < Chunk /\ from + off < Len(Obs)
        /\ off' = off + 1 /\ from' = from
Spec == Init /\ [][Next]_<<from, off>>

Seen == off > 0
Ob == Obs[from + off]
NoCrash == Seen => Ob.crash = 0
Answered == Seen /\ Ob.crash = 0
=============================================================================
