------------------------------ MODULE CallsGen ------------------------------
(* Histories of calls: which stepper next, from a pool of IOEnv.POOL steppers; restarts.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES h
Pool == JsonDeserialize(IOEnv.POOL_FILE)     \* number of different calls
Init == h = <<>>
Next == /\ Len(h) < Depth
        /\ \E k \in 1..Pool[1] : h' = Append(h, k)
        /\ (Len(h') = Depth => PrintT(ToJson(h')))
=============================================================================
