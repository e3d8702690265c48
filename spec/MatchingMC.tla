----------------------------- MODULE MatchingMC -----------------------------
(* A one-dimensional flow-matching model: sample, then evaluate the sample's density; and training pairs. *)
EXTENDS Matching
CONSTANTS Variant, N
VARIABLES f, x0, mean, s, phase, k, x, acc, smp, lp, tr
vars == <<f, x0, mean, s, phase, k, x, acc, smp, lp, tr>>
T == 8
Init == /\ f \in [g : [1..N -> {-1, 0, 1}], c : [1..N -> {-64, 0, 128}]]
        /\ x0 \in {-192, -64, 64, 128} /\ mean \in {0, 64} /\ s \in {0, 1}
        /\ phase = "fwd" /\ k = 1 /\ x = x0 /\ acc = 0 /\ smp = 0 /\ lp = 0 /\ tr = <<>>
Base(z) == -((z \div 64) * (z \div 64))
Forward == /\ phase = "fwd" /\ k <= N /\ x' = FStep(f, k, x) /\ k' = k + 1 /\ UNCHANGED <<f, x0, mean, s, phase, acc, smp, lp, tr>>
Emit == /\ phase = "fwd" /\ k = N + 1 /\ smp' = Scale2(x, s) + mean /\ phase' = "white" /\ UNCHANGED <<f, x0, mean, s, k, x, acc, lp, tr>>
White == /\ phase = "white" /\ x' = (IF Variant = "unwhitened" THEN smp ELSE Scale2(smp - mean, -s)) /\ phase' = "back"
         /\ k' = (IF Variant = "fwdtime" THEN 1 ELSE N) /\ acc' = 0 /\ UNCHANGED <<f, x0, mean, s, smp, lp, tr>>
Back == /\ phase = "back" /\ k \in 1..N
        /\ x' = BStep(f, k, x)
        /\ acc' = (IF Variant = "sign" THEN acc + f.g[k] ELSE IF Variant = "nodiv" THEN acc ELSE acc - f.g[k])
        /\ k' = (IF Variant = "fwdtime" THEN k + 1 ELSE k - 1)
        /\ UNCHANGED <<f, x0, mean, s, phase, smp, lp, tr>>
Report == /\ phase = "back" /\ k \notin 1..N /\ phase' = "train"
          /\ lp' = Base(IF Variant = "backbase" THEN Scale2(smp - mean, -s) ELSE x) + acc - s
          /\ UNCHANGED <<f, x0, mean, s, k, x, acc, smp, tr>>
\* training pairs at three times: point, velocity
Train == /\ phase = "train" /\ phase' = "done"
         /\ tr' = [t \in 1..3 |-> LET tt == (t - 1) * 4
                                      d == Scale2(smp - mean, -s)
                                      a == IF Variant = "swap" THEN d ELSE x0   b == IF Variant = "swap" THEN x0 ELSE d
                                  IN [t |-> tt, p |-> PathPoint(a, b, tt, T), v |-> IF Variant = "deriv" THEN PathVel(b, a) ELSE PathVel(a, b)]]
         /\ UNCHANGED <<f, x0, mean, s, k, x, acc, smp, lp>>
Next == Forward \/ Emit \/ White \/ Back \/ Report \/ Train
Carried == phase \in {"train", "done"} => x = x0
\* the volume change of the whole forward map by differences, as powers of two
Density == phase \in {"train", "done"} => lp = Base(x0) - SumTo(f.g, N) - s
Pairs == phase = "done" =>
   /\ tr[1].p = T * x0 /\ tr[3].p = T * Scale2(smp - mean, -s)
   /\ \A i \in 1..2 : tr[i + 1].p - tr[i].p = (tr[i + 1].t - tr[i].t) * tr[i].v
Inv == Carried /\ Density /\ Pairs
=============================================================================
