----------------------------- MODULE TrainingMC -----------------------------
(* (1) Selection by counting valid samples from the end, against the definition, for every pattern of *)
(* valid samples of two chains.  (2) The training loop: shuffling, batches, parameters and optimizer  *)
(* state as versions, losses of every kind, the bookkeeping of the best epoch.                        *)
EXTENDS Training
CONSTANTS Variant, N, B, Epochs, Cols, Hist
VARIABLES valid, chosen, epoch, theta, opt, order, pos, seen, losses, best, bestloss, drops
vars == <<valid, chosen, epoch, theta, opt, order, pos, seen, losses, best, bestloss, drops>>
NaNv == 100
Loss == {1, 2, NaNv}
IsBad(x) == x = NaNv

Age(v, k) == Cardinality({j \in k..Len(v) : v[j]})
Select(v) == CASE Variant = "window" -> [c \in 1..2 |-> {k \in 1..Cols : v[c][k] /\ k > Cols - Hist}]
               [] Variant = "common" -> [c \in 1..2 |-> {k \in 1..Cols : v[1][k] /\ Age(v[1], k) <= Hist}]
               [] OTHER -> [c \in 1..2 |-> {k \in 1..Cols : v[c][k] /\ Age(v[c], k) <= Hist}]
Perms == {p \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => p[i] # p[j]}

Init == /\ valid \in [1..2 -> [1..Cols -> BOOLEAN]]
        /\ chosen = Select(valid)
        /\ epoch = 0 /\ theta = 0 /\ opt = 0 /\ order = <<>> /\ pos = 0 /\ seen = <<>> /\ losses = <<>>
        /\ best = [theta |-> 0, opt |-> 0] /\ bestloss = NaNv /\ drops = {}
\* the training loop is explored for one pattern only
Small == \A c \in 1..2 : \A k \in 1..Cols : valid[c][k]
Shuffle == /\ Small /\ epoch < Epochs /\ order = <<>>
           /\ \E p \in Perms : order' = p
           /\ pos' = 0 /\ seen' = <<>>
           /\ theta' = (IF Variant = "restart" THEN best.theta ELSE theta)
           /\ UNCHANGED <<valid, chosen, epoch, opt, losses, best, bestloss, drops>>
Steps_ == PerEpoch(N, B)
Batch == /\ order # <<>> /\ pos < Steps_
         /\ \E l \in Loss :
              LET n == BatchLen(N, B)
                  at == IF Variant = "overlap" THEN pos * (n - 1) ELSE pos * n
                  lastone == pos + 1 = Steps_
                  better == ~IsBad(l) /\ (IF Variant = "later" THEN bestloss = NaNv \/ l <= bestloss ELSE l < bestloss)
              IN /\ seen' = Append(seen, {order[at + i] : i \in 1..n})
                 /\ theta' = theta + 1 /\ opt' = opt + 1
                 /\ IF lastone
                    THEN /\ losses' = Append(losses, l)
                         /\ best' = IF better THEN [theta |-> (IF Variant = "before" THEN theta ELSE theta'), opt |-> opt'] ELSE best
                         /\ bestloss' = IF better THEN l ELSE bestloss
                         /\ order' = <<>> /\ epoch' = epoch + 1
                         /\ drops' = drops \union ((1..N) \ UNION {seen'[i] : i \in 1..Len(seen')})
                    ELSE UNCHANGED <<losses, best, bestloss, order, epoch, drops>>
         /\ pos' = pos + 1
         /\ UNCHANGED <<valid, chosen>>
Next == Shuffle \/ Batch

SelectionOk == \A c \in 1..2 : chosen[c] = Recent(valid[c], Hist)
BatchesOk == \A i \in 1..Len(seen) : /\ Cardinality(seen[i]) = BatchLen(N, B)
                                     /\ \A j \in 1..Len(seen) : i # j => seen[i] \cap seen[j] = {}
Continues == theta = opt /\ (epoch > 0 => best.theta = best.opt)
BestOk == LET b == Best(losses, IsBad) IN best.theta = b * Steps_
Inv == SelectionOk /\ BatchesOk /\ Continues /\ BestOk
=============================================================================
