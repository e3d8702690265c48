---------------------------- MODULE TemperingGen ----------------------------
(* Histories of parallel-tempering calls: tables are drawn anew ("fresh") or kept, phases switched.  *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES h
Ops == {"fresh", "again", "flat", "steep", "rare", "often", "none", "switch"}
Init == h = <<>>
Next == /\ Len(h) < 5
        /\ \E o \in Ops : h' = Append(h, o)
        /\ (Len(h') = 5 => PrintT(ToJson(h')))
=============================================================================
