----------------------------- MODULE RecorderGen -----------------------------
(* Generates schedules of stepping calls, repositionings, redirections and fresh starts  *)
(* for a group of real steppers (POOL_FILE), always with room in the buffers.            *)
EXTENDS Recorder, TLC, Json, IOUtils
Pool == JsonDeserialize(IOEnv.POOL_FILE)    \* sequence of groups [nc, cols, st: sequence of [n, thin, kind]]
VARIABLES g, cur, full, target, ops, done
Ns == {"A", "B"}
Init == /\ g \in 1..Len(Pool) /\ cur = [i \in 1..Len(Pool[g].st) |-> 0] /\ target = "A" /\ ops = <<>>
        /\ done = FALSE /\ full = 0
Add(o) == ops' = Append(ops, o)
Next ==
  /\ ~done
  /\ \/ \E s \in 1..Len(Pool[g].st) :
          LET p == Pool[g].st[s] IN
          /\ cur[s] + NRec(p.n, p.thin) <= Pool[g].cols
          /\ Add([op |-> "step", s |-> s, k |-> 0]) /\ cur' = [cur EXCEPT ![s] = @ + NRec(p.n, p.thin)]
          /\ UNCHANGED <<g, full, target, done>>
     \/ \E s \in 1..Len(Pool[g].st), s2 \in 1..Len(Pool[g].st) :
          /\ s # s2 /\ cur[s] # cur[s2]
          /\ Add([op |-> "setpos", s |-> s, k |-> cur[s2]]) /\ cur' = [cur EXCEPT ![s] = cur[s2]]
          /\ UNCHANGED <<g, full, target, done>>
     \/ \E s \in 1..Len(Pool[g].st) : \E k \in {0, 3, Pool[g].cols - NRec(Pool[g].st[s].n, Pool[g].st[s].thin)} :
          /\ Len(ops) % 3 = 1 /\ cur[s] # k /\ k >= 0
          /\ Add([op |-> "setpos", s |-> s, k |-> k]) /\ cur' = [cur EXCEPT ![s] = k]
          /\ UNCHANGED <<g, full, target, done>>
     \/ /\ Len(ops) % 3 = 2 /\ Add([op |-> "redirect", s |-> 0, k |-> 0])
        /\ target' = (IF target = "A" THEN "B" ELSE "A") /\ UNCHANGED <<g, cur, full, done>>
     \/ /\ Len(ops) % 4 = 3 /\ Add([op |-> "fresh", s |-> 0, k |-> 0]) /\ UNCHANGED <<g, cur, full, target, done>>
     \/ /\ Len(ops) >= 8 /\ done' = TRUE /\ UNCHANGED <<g, cur, full, target, ops>>
        /\ PrintT(ToJson([g |-> g, ops |-> ops]))
=============================================================================
