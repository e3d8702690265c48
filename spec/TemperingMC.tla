---------------------------- MODULE TemperingMC -----------------------------
(* Chains of replicas moved by kernel steps (fresh identities), exchanged, handed on; the ladder       *)
(* adapted in training.  Ghosts: which replica each state descends from.                                *)
EXTENDS Tempering
CONSTANTS Variant, R, Calls
VARIABLES cold, hot, call, training, last, ladder, outs
vars == <<cold, hot, call, training, last, ladder, outs>>
\* a state: [id, ll]; the state of a replica after its steps has the same id and a new likelihood
LL == 0..1
Beta == [i \in 1..R |-> R - i + 1]
Us == {-1, 0}
Init == /\ cold = [id |-> 1, ll |-> 0] /\ hot = [i \in 1..(R - 1) |-> [id |-> i + 1, ll |-> 0]]
        /\ call = 0 /\ training = TRUE /\ last = <<>> /\ outs = <<>>
        /\ ladder = [i \in 1..R |-> 10 * i]
Ratio(s, i) == IF Variant = "sign" THEN (Beta[i] - Beta[i + 1]) * (s[i].ll - s[i + 1].ll)
               ELSE (Beta[i] - Beta[i + 1]) * (s[i + 1].ll - s[i].ll)
\* decisions of a sweep with uniforms u; "stale": likelihoods are not swapped along
RECURSIVE Decide(_, _, _, _)
Decide(s, s0, u, d) == LET i == Len(d) + 1 IN
  IF i > R - 1 THEN d
  ELSE LET acc == u[i] < Ratio(IF Variant = "stale" THEN s0 ELSE s, i)
       IN Decide(IF acc THEN Swap(s, i) ELSE s, s0, u, Append(d, acc))
Call == \E lls \in [1..R -> LL], u \in [1..(R - 1) -> Us] :
  LET s0 == [i \in 1..R |-> [id |-> (IF i = 1 THEN cold ELSE hot[i - 1]).id, ll |-> lls[i]]]
      d == Decide(s0, s0, u, <<>>)
      s1 == Sweep(s0, d, 1)
      \* a gap grows with the difference of the acceptances below and above it
      shift(i) == (IF d[i] THEN 1 ELSE 0) - (IF d[i + 1] THEN 1 ELSE 0)
      adapted == [i \in 1..R |-> IF i = 1 \/ i = R THEN ladder[i] ELSE ladder[i] + shift(i - 1)]
  IN /\ cold' = s1[1]
     /\ hot' = IF Variant = "forget" /\ ~training THEN hot ELSE [i \in 1..(R - 1) |-> s1[i + 1]]
     /\ last' = [s0 |-> s0, u |-> u, d |-> d, s1 |-> s1, ladder |-> ladder]
     /\ ladder' = IF training \/ Variant = "alwaysadapt" THEN adapted ELSE ladder
     /\ call' = call + 1 /\ outs' = Append(outs, training) /\ UNCHANGED training
Switch == training /\ training' = FALSE /\ UNCHANGED <<cold, hot, call, last, ladder, outs>>
Next == call < Calls /\ (Call \/ Switch)
Ids(c, h) == {c.id} \union {h[i].id : i \in 1..(R - 1)}
NoReplicaLost == Ids(cold, hot) = 1..R
RuleHolds == last = <<>> \/ \A i \in 1..(R - 1) :
   LET s == Before(last.s0, last.d, i) IN last.d[i] = (last.u[i] < (Beta[i] - Beta[i + 1]) * (s[i + 1].ll - s[i].ll))
\* the decisions can be read off the states before and after, and only these
Readable == last = <<>> \/ (Decisions(last.s0, last.s1) = {last.d}
   /\ {e \in [1..(R - 1) -> BOOLEAN] : Sweep(last.s0, e, 1) = last.s1} = {last.d})
LadderOk == ladder[1] = 10 /\ ladder[R] = 10 * R /\ \A i \in 1..(R - 1) : ladder[i] < ladder[i + 1]
Frozen == outs # <<>> /\ ~outs[Len(outs)] => ladder = last.ladder
Inv == NoReplicaLost /\ Readable /\ RuleHolds /\ LadderOk /\ Frozen
=============================================================================
