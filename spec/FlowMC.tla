------------------------------- MODULE FlowMC -------------------------------
(* A two-dimensional flow of NL coupling layers with alternating masks.  A base draw z is carried through  *)
(* the inverse layer by layer, de-whitened into a sample, and the sample's density is evaluated by         *)
(* whitening and carrying it forward again layer by layer.                                               *)
EXTENDS Flow
CONSTANTS Variant, NL
VARIABLES Ls, z, mean, s, base, phase, i, x, ld, ldi, smp, lp
vars == <<Ls, z, mean, s, base, phase, i, x, ld, ldi, smp, lp>>
Cl == {-1, 0, 1}
Tables == {[k |-> k, t |-> t] : k \in {[c \in Cl |-> 0], [c \in Cl |-> c], [c \in Cl |-> 1]}, t \in {[c \in Cl |-> 64 * c], [c \in Cl |-> 64]}}
Layer(n, tab) == [mask |-> IF n % 2 = 1 THEN <<1, 0>> ELSE <<0, 1>>, k |-> tab.k, t |-> tab.t]
Init == /\ Ls \in {[n \in 1..NL |-> Layer(n, f[n])] : f \in [1..NL -> Tables]}
        /\ z \in {<<a, b>> : a \in {-128, 64}, b \in {-64, 192}}
        /\ mean \in {<<0, 0>>, <<64, -128>>} /\ s \in {<<0, 0>>, <<1, 2>>}
        /\ base \in {1, 2}          \* which base distribution the flow was built with
        /\ phase = "draw" /\ i = 0 /\ x = z /\ ld = 0 /\ ldi = 0 /\ smp = <<0, 0>> /\ lp = 0
\* two base distributions, by their log-density (units of ln 2)
LogBase(b, p) == IF b = 1 THEN -((p[1] + p[2]) \div 64) ELSE -((3 * p[1]) \div 64)
Draw == phase = "draw" /\ phase' = "inv" /\ i' = (IF Variant = "order" THEN 1 ELSE NL) /\ x' = z /\ UNCHANGED <<Ls, z, mean, s, base, ld, ldi, smp, lp>>
Inverse == /\ phase = "inv" /\ i \in 1..NL
           /\ x' = LInv(Ls[i], x)
           /\ ldi' = ldi - (IF Variant = "fulldet" THEN 2 * Ls[i].k[Class(Ls[i], x)] ELSE LDet(Ls[i], x))
           /\ i' = (IF Variant = "order" THEN i + 1 ELSE i - 1)
           /\ UNCHANGED <<Ls, z, mean, s, base, phase, ld, smp, lp>>
Emit == /\ phase = "inv" /\ i \notin 1..NL /\ smp' = Dewhiten(x, mean, s) /\ phase' = "whiten"
        /\ UNCHANGED <<Ls, z, mean, s, base, i, x, ld, ldi, lp>>
White == /\ phase = "whiten" /\ x' = Whiten(smp, mean, s) /\ phase' = "fwd" /\ i' = 1 /\ ld' = 0
         /\ UNCHANGED <<Ls, z, mean, s, base, ldi, smp, lp>>
Forward == /\ phase = "fwd" /\ i \in 1..NL
           /\ x' = LFwd(Ls[i], x) /\ ld' = ld + LDet(Ls[i], x) /\ i' = i + 1
           /\ UNCHANGED <<Ls, z, mean, s, base, phase, ldi, smp, lp>>
Report == /\ phase = "fwd" /\ i = NL + 1 /\ phase' = "done"
          /\ lp' = LogBase(IF Variant = "stdbase" THEN 1 ELSE base, x) + ld - (IF Variant = "nowhiten" THEN 0 ELSE Total(s))
          /\ UNCHANGED <<Ls, z, mean, s, base, i, x, ld, ldi, smp>>
Next == Draw \/ Inverse \/ Emit \/ White \/ Forward \/ Report
\* the flow undoes itself
Trip == phase = "done" => x = z
Cancel == phase = "done" => (ld + ldi = 0)
\* the log-determinant is that of the map from the whitened point, by differences where the flow is affine
D == 8
Volume == phase = "done" =>
  LET w == Whiten(smp, mean, s)  f == Fwd(Ls, w)
      a == Fwd(Ls, <<w[1] + D, w[2]>>)  b == Fwd(Ls, <<w[1], w[2] + D>>)
      det == Det2(a[1] - f[1], b[1] - f[1], a[2] - f[2], b[2] - f[2])
      c == Classes(Ls, w)
  IN (Classes(Ls, <<w[1] + D, w[2]>>) = c /\ Classes(Ls, <<w[1], w[2] + D>>) = c) =>
        IF ld >= 0 THEN det = D * D * Pow2(ld) ELSE det * Pow2(-ld) = D * D
\* the reported density is that of the samples: the base density at the draw, times the volume change from sample to draw
Density == phase = "done" => lp = LogBase(base, z) + FwdDet(Ls, Whiten(smp, mean, s)) - Total(s)
Inv == Trip /\ Cancel /\ Volume /\ Density
=============================================================================
