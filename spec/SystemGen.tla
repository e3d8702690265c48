----------------------------- MODULE SystemGen ------------------------------
(* Random programs over the strategies, with things to start out different and a way to run it again.   *)
EXTENDS System, TLC, Json
CONSTANT Len0
VARIABLES ops, len
R(S) == RandomElement(S)
Init == ops = <<>> /\ len = 0
Next == \/ /\ len = 0 /\ len' = R(4..Len0) /\ UNCHANGED ops
        \/ /\ len > 0 /\ Len(ops) < len
           /\ LET k == R(IF \E i \in 1..Len(ops) : ops[i] = "switch" THEN Kinds \ {"switch"} ELSE Kinds)
              IN ops' = Append(ops, k) /\ UNCHANGED len
           /\ (Len(ops') = len => PrintT(ToJson([ops |-> ops', d |-> <<R(Things \ {"state"}), R(Things \ {"state"})>>, seed |-> R(0..9)])))
=============================================================================
