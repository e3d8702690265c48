----------------------------- MODULE RecorderMC -----------------------------
(* Every interleaving of two steppers that share the buffers, with hand-over of the      *)
(* write position as in the bundles, against an append-only history.                     *)
EXTENDS Recorder, TLC
CONSTANTS NChains, Cols, MaxN, MaxThin, Variant
VARIABLES w, sps, hist
vars == <<w, sps, hist>>
Init == /\ sps \in [{"l", "g"} -> [n : 1..MaxN, thin : 1..MaxThin, kind : {"L", "G"}]]
        /\ sps["l"].kind = "L" /\ sps["g"].kind = "G"
        /\ w = [chains |-> [c \in 1..NChains |-> c * 1000], cur |-> [s \in {"l", "g"} |-> 0],
                bufs |-> EmptyBufs(NChains, Cols), target |-> "A"]
        /\ hist = [t \in {"A", "B"} |-> <<>>]
Min2(a, b) == IF a < b THEN a ELSE b
\* wrong designs: recording one sample more than the position advances; handing on the first sample
CeilRec(c, n, thin) == [j \in 1..((n + thin - 1) \div thin) |-> c + StepOfRec(j, thin)]
Post(s) == LET p == StepPost(w, s, sps[s]) IN
    IF Variant = "ceil" THEN
       [p EXCEPT !.bufs[BufPos(w.target)] = WriteBuf(w.bufs[BufPos(w.target)],
            Min2(w.cur[s], Cols - Len(CeilRec(0, sps[s].n, sps[s].thin))),
            [c \in 1..NChains |-> CeilRec(w.chains[c], sps[s].n, sps[s].thin)])]
    ELSE IF Variant = "noadvance" THEN [p EXCEPT !.cur[s] = w.cur[s]]
    ELSE p
Step(s) == /\ CtrOf(w.chains[1]) < 3 * MaxN   \* calls that record nothing would go on for ever
           /\ HasRoom(w, s, sps[s]) /\ Len(hist[w.target]) + NRec(sps[s].n, sps[s].thin) <= Cols
           /\ w' = [Post(s) EXCEPT !.cur = [x \in {"l", "g"} |-> Post(s).cur[s]]]   \* hand-over to the other stepper
           /\ hist' = [hist EXCEPT ![w.target] = @ \o RecCodes(w.chains[1], sps[s].n, sps[s].thin)]
           /\ UNCHANGED sps
Switch == /\ w.target = "A" /\ w' = [w EXCEPT !.target = "B", !.cur = [s \in {"l", "g"} |-> 0]]
          /\ UNCHANGED <<sps, hist>>
Next == Switch \/ \E s \in {"l", "g"} : Step(s)
\* the buffer is the history of chain 1, then unset; the other chains are shifted copies
Row(t, c) == w.bufs[BufPos(t)][c]
Lossless == \A t \in {"A", "B"} : \A k \in 1..Cols :
    Row(t, 1)[k] = IF k <= Len(hist[t]) THEN hist[t][k] ELSE Unset
Rows == \A t \in {"A", "B"} : \A c \in 2..NChains : \A k \in 1..Cols :
    Row(t, c)[k] = IF Row(t, 1)[k] = Unset THEN Unset ELSE Row(t, 1)[k] + (c - 1) * 1000
Aligned == \A t \in {"A", "B"} : \A c \in 1..NChains : \A k \in 1..Cols :
    /\ (w.bufs[BufLp(t)][c][k] = Unset) = (Row(t, c)[k] = Unset)
    /\ Cardinality({kd \in {"L", "G"} : w.bufs[BufAcc(t, kd)][c][k] # Unset}) = IF Row(t, c)[k] = Unset THEN 0 ELSE 1
Forward == \A t \in {"A", "B"} : \A k \in 2..Len(hist[t]) : CtrOf(hist[t][k]) > CtrOf(hist[t][k - 1])
Inv == Lossless /\ Rows /\ Aligned /\ Forward
=============================================================================
