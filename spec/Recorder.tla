------------------------------ MODULE Recorder ------------------------------
(* Chains, steppers and the buffers they record into.                                    *)
(* A chain state is [tag, ctr]: which chain it belongs to and how many kernel steps it   *)
(* has taken; a chain of distinct states stands for a trajectory of any kernel.          *)
EXTENDS Integers, Sequences, FiniteSets

Unset == -1
Code(x) == x.tag * 1000 + x.ctr
TagOf(c) == c \div 1000
CtrOf(c) == c % 1000

\* recorded samples of one call: how many, and which step (1-based) the j-th one is
NRec(n, thin) == n \div thin
StepOfRec(j, thin) == 1 + (j - 1) * thin
\* the state handed on: that of the last thinning-th step
LastStep(n, thin) == 1 + ((n - 1) \div thin) * thin

\* codes of the recorded samples of a chain that starts at code c
RecCodes(c, n, thin) == [j \in 1..NRec(n, thin) |-> c + StepOfRec(j, thin)]
HandOn(c, n, thin) == c + LastStep(n, thin)

\* writing a row: columns cur+1 .. cur+Len(vals)
WriteRow(row, cur, vals) == [k \in 1..Len(row) |->
    IF k > cur /\ k <= cur + Len(vals) THEN vals[k - cur] ELSE row[k]]
WriteBuf(buf, cur, rows) == [c \in 1..Len(buf) |-> WriteRow(buf[c], cur, rows[c])]

\* what the three buffers hold for a state of code c (the stub kernels' conventions)
LogProbOf(c) == c
AccOf(c) == IF c % 3 = 1 THEN 1 ELSE 0

(* w: [chains: seq of codes, cur: stepper -> column, bufs: name -> rows, target: "A"/"B"] *)
BufPos(t) == "pos" \o t
BufLp(t) == "lp" \o t
BufAcc(t, kind) == "acc" \o kind \o t
StepPost(w, s, sp) ==      \* sp: [n, thin, kind] of stepper s
    LET rec == [c \in 1..Len(w.chains) |-> RecCodes(w.chains[c], sp.n, sp.thin)]
        t == w.target
        f(g(_)) == [c \in 1..Len(rec) |-> [j \in 1..Len(rec[c]) |-> g(rec[c][j])]]
    IN [w EXCEPT !.bufs[BufPos(t)] = WriteBuf(@, w.cur[s], rec),
                 !.bufs[BufLp(t)] = WriteBuf(@, w.cur[s], f(LogProbOf)),
                 !.bufs[BufAcc(t, sp.kind)] = WriteBuf(@, w.cur[s], f(AccOf)),
                 !.cur[s] = @ + NRec(sp.n, sp.thin),
                 !.chains = [c \in 1..Len(w.chains) |-> HandOn(w.chains[c], sp.n, sp.thin)]]
HasRoom(w, s, sp) == w.cur[s] + NRec(sp.n, sp.thin) <= Len(w.bufs[BufPos(w.target)][1])
Names == {BufPos(t) : t \in {"A", "B"}} \cup {BufLp(t) : t \in {"A", "B"}}
         \cup {BufAcc(t, k) : t \in {"A", "B"}, k \in {"L", "G"}}
EmptyBufs(nc, cols) == [b \in Names |-> [c \in 1..nc |-> [k \in 1..cols |-> Unset]]]
=============================================================================
