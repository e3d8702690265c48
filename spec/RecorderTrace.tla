--------------------------- MODULE RecorderTrace ---------------------------
EXTENDS TraceLib, Recorder
VARIABLES tid, l, st, bad
Cfg == Traces[tid].cfg
Ev == Traces[tid].ev
NC == Cfg.nc
InitSt(c) == [chains |-> c.start, cur |-> [i \in 1..Len(c.st) |-> 0],
              bufs |-> EmptyBufs(c.nc, c.cols), target |-> "A"]

SameRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* which kinds of deviation a buffer shows
RowsTouched(w, b, after) == {k \in 1..Cfg.cols : \E c \in 1..NC : after[c][k] # w.bufs[b][c][k]}
StepEv(w, e) ==
  IF e.op = "step" THEN
    LET sp == Cfg.st[e.s]
        p == StepPost(w, e.s, sp)
        room == HasRoom(w, e.s, sp)
        cols == (w.cur[e.s] + 1)..(w.cur[e.s] + NRec(sp.n, sp.thin))
        dest == {BufPos(w.target), BufLp(w.target), BufAcc(w.target, sp.kind)}
        shape == \A b \in Names : Len(e.bufs[b]) = NC /\ \A c \in 1..NC : Len(e.bufs[b][c]) = Cfg.cols
    IN [st |-> [w EXCEPT !.chains = e.ret, !.cur[e.s] = e.cur, !.bufs = IF shape THEN e.bufs ELSE w.bufs],
        bad |-> C(room, "machinery-no-room")
             \o C(shape, "rec-buffer-shape")
             \o (IF shape THEN
                  C(\A b \in Names \ dest : e.bufs[b] = w.bufs[b], "rec-other-buffer-changed")
               \o C(\A b \in dest : RowsTouched(w, b, e.bufs[b]) \subseteq cols, "rec-column-outside-changed")
               \o C(e.bufs[BufPos(w.target)] = p.bufs[BufPos(w.target)], "rec-positions")
               \o C(e.bufs[BufLp(w.target)] = p.bufs[BufLp(w.target)], "rec-log-probs")
               \o C(e.bufs[BufAcc(w.target, sp.kind)] = p.bufs[BufAcc(w.target, sp.kind)], "rec-acceptances")
                 ELSE <<>>)
             \o C(e.cur = p.cur[e.s], "rec-advance")
             \o C(e.ret = p.chains, "chain-handed-on")
             \o C(e.carry = 0, "chain-carry")
             \o C(e.input = "same", "chain-input-modified")]
  ELSE IF e.op = "setpos" THEN
    [st |-> [w EXCEPT !.cur[e.s] = e.k], bad |-> C(e.cur = e.k, "rec-set-position")]
  ELSE IF e.op = "redirect" THEN
    [st |-> [w EXCEPT !.target = IF @ = "A" THEN "B" ELSE "A"], bad |-> <<>>]
  ELSE \* fresh start of the chains
    [st |-> [w EXCEPT !.chains = e.start], bad |-> <<>>]

(* ---- numeric comparisons of runs of real kernels (batching, independence) ---- *)
CmpEv(w, e) ==
  [st |-> w,
   bad |-> (IF e.op = "batch" THEN
              C(Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : NearSeq(e.a[i], e.b[i], e.tol), "chain-batching-" \o e.what)
            ELSE IF e.op = "indep" THEN C(e.a = e.b, "chain-influenced-by-others-" \o e.what)
            ELSE C(e.a # e.b, "chain-not-influenced-by-own-start"))]

Step(w, e) == IF e.op \in {"batch", "indep", "dep"} THEN CmpEv(w, e) ELSE StepEv(w, e)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = InitSt(Traces[tid].cfg) /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN
             /\ st' = r.st
             /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
