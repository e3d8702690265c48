------------------------------- MODULE KeysMC -------------------------------
(* A run: strategies one after another, each splitting the key it is handed into the key it hands on and  *)
(* a key for itself, that one per chain; every chain splits its key at every step and draws a proposal    *)
(* and an acceptance variate. Chains proceed independently.                                              *)
EXTENDS Keys
CONSTANTS Variant, Strategies, Chains, NSteps
VARIABLES run, s, carry, step, drawn, split, phase
vars == <<run, s, carry, step, drawn, split, phase>>
Init == run = <<>> /\ s = 1 /\ carry = [c \in 1..Chains |-> <<>>] /\ step = [c \in 1..Chains |-> 0] /\ drawn = <<>> /\ split = {} /\ phase = "start"
Start == /\ phase = "start" /\ s <= Strategies
         /\ LET own == Child(run, 2) IN
            /\ split' = split \cup {run} \cup (IF Variant = "shared" THEN {} ELSE {own})
            /\ carry' = [c \in 1..Chains |-> IF Variant = "shared" THEN own ELSE Child(own, c)]
            /\ run' = IF Variant = "returnold" THEN run ELSE IF Variant = "returnused" THEN own ELSE Child(run, 1)
         /\ step' = [c \in 1..Chains |-> 0] /\ phase' = "steps" /\ UNCHANGED <<s, drawn>>
Take(c) == /\ phase = "steps" /\ step[c] < NSteps
           /\ LET sub == Child(carry[c], 2)
                  p == IF Variant = "both" THEN sub ELSE Child(sub, 1)
                  a == IF Variant = "same" THEN p ELSE Child(sub, 2)
              IN /\ drawn' = drawn \o <<[key |-> p, for |-> "proposal"], [key |-> a, for |-> "acceptance"]>>
                 /\ split' = split \cup {carry[c], sub}
                 /\ carry' = IF Variant = "stale" THEN carry ELSE [carry EXCEPT ![c] = Child(@, 1)]
           /\ step' = [step EXCEPT ![c] = @ + 1] /\ UNCHANGED <<run, s, phase>>
Finish == /\ phase = "steps" /\ \A c \in 1..Chains : step[c] = NSteps
          /\ phase' = "start" /\ s' = s + 1 /\ UNCHANGED <<run, carry, step, drawn, split>>
Next == Start \/ Finish \/ \E c \in 1..Chains : Take(c)
\* the key handed on has not been used, and nothing used descends from it
Fresh == run \notin split /\ run \notin DrawnKeys(drawn) /\ \A k \in split \cup DrawnKeys(drawn) : ~Prefix(run, k)
Enough == Cardinality(DrawnKeys(drawn)) = Len(drawn)
Inv == DrawnOnce(drawn) /\ NeverBoth(drawn, split) /\ (phase = "steps" => Fresh) /\ Enough
=============================================================================
