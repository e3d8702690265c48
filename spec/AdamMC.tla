------------------------------- MODULE AdamMC -------------------------------
(* Two chains climbing targets a*x - c*x*x/2 (integer fixed point, position unit 1/1024) by Adam with      *)
(* projection onto [Lo, Hi] after every step.                                                          *)
EXTENDS Adam
CONSTANTS Variant, Steps, Lr
VARIABLES x, x0, a, c, lo, hi, gs, n, path
vars == <<x, x0, a, c, lo, hi, gs, n, path>>
Ch == 1..2
B1 == 922
B2 == 1023
Init == /\ x0 \in [Ch -> {-64, 0, 100}] /\ a \in [Ch -> {-200, 0, 300}] /\ c \in {0, 1}
        /\ \E b \in {<<-1000, 1000>>, <<-70, 110>>} : lo = b[1] /\ hi = b[2]
        /\ x = x0 /\ gs = [i \in Ch |-> <<>>] /\ n = 0 /\ path = [i \in Ch |-> <<x0[i]>>]
Grad(i) == IF Variant = "descend" THEN a[i] - c * x[i] ELSE -(a[i] - c * x[i])
Step == /\ n < Steps
        /\ LET g2 == [i \in Ch |-> Append(IF Variant = "shared" THEN gs[1] ELSE gs[i], Grad(i))]
               y == [i \in Ch |-> x[i] + Disp(g2[i], Lr, B1, B2)]
               z == [i \in Ch |-> IF Variant = "late" /\ n + 1 < Steps THEN y[i] ELSE IF Variant = "lowonly" THEN (IF y[i] < lo THEN lo ELSE y[i]) ELSE Project(y[i], lo, hi)]
           IN gs' = g2 /\ x' = z /\ path' = [i \in Ch |-> Append(path[i], z[i])]
        /\ n' = n + 1 /\ UNCHANGED <<x0, a, c, lo, hi>>
Next == Step
InBounds == \A i \in Ch : \A k \in 2..Len(path[i]) : lo <= path[i][k] /\ path[i][k] <= hi
\* the first step goes uphill by the learning rate
First == n >= 1 => \A i \in Ch : LET s == a[i] - c * x0[i]  y == x0[i] + (IF s > 0 THEN Lr ELSE IF s < 0 THEN -Lr ELSE 0) IN
            LET p == Project(y, lo, hi) IN path[i][2] - p \in -1..1
\* a constant slope: every step
Linear == c = 0 => \A i \in Ch : \A k \in 1..n : LET y == path[i][k] + (IF a[i] > 0 THEN Lr ELSE IF a[i] < 0 THEN -Lr ELSE 0) IN
            path[i][k + 1] - Project(y, lo, hi) \in -1..1
\* a chain alone does the same
Alone(i) == LET RECURSIVE P(_, _)
                P(p, g) == IF Len(p) = n + 1 THEN p ELSE
                           LET h == Append(g, -(a[i] - c * p[Len(p)])) IN P(Append(p, Project(p[Len(p)] + Disp(h, Lr, B1, B2), lo, hi)), h)
            IN P(<<x0[i]>>, <<>>)
Separate == \A i \in Ch : path[i] = Alone(i)
Inv == InBounds /\ First /\ Linear /\ Separate
=============================================================================
