----------------------------- MODULE PipelineMC -----------------------------
EXTENDS Pipeline, TLC, Json
CONSTANTS MaxLen, Variant   \* Variant: "ok", or a deliberately wrong design
Names == {"a", "b", "c"}
EffOf == [a |-> Effect(TRUE, FALSE, TRUE), b |-> Effect(FALSE, TRUE, FALSE), c |-> Effect(TRUE, TRUE, TRUE)]
VARIABLES prog, s, ran
vars == <<prog, s, ran>>
Progs == UNION {[1..n -> Names \cup {"zz"}] : n \in 0..MaxLen}
Init == prog \in Progs /\ s = StartState(1, 2, 3) /\ ran = <<>>

In(st) == IF Variant = "stale" THEN [CallIn(st) EXCEPT !.pos = 3] ELSE CallIn(st)
Avail == Names
Upfront == Variant = "upfront" /\ \E i \in 1..Len(prog) : prog[i] \notin Names
Next ==
  \/ /\ Kind(s, prog, Avail) = "call" /\ ~Upfront
     /\ LET nm == prog[s.pc]
            e == EffOf[nm]
            o == CallOut(s, e) IN
          /\ ran' = Append(ran, [name |-> nm, in |-> In(s), out |-> o])
          /\ s' = IF Variant = "skip" /\ s.pc < Len(prog) /\ prog[s.pc + 1] = nm
                  THEN [AfterCall(s, e) EXCEPT !.pc = s.pc + 2] ELSE AfterCall(s, e)
     /\ UNCHANGED prog
  \/ /\ Kind(s, prog, Avail) = "raise" \/ (Upfront /\ s.status = "run")
     /\ s' = [s EXCEPT !.status = "error"] /\ UNCHANGED <<prog, ran>>
  \/ /\ Kind(s, prog, Avail) = "end"
     /\ s' = [s EXCEPT !.status = "done"] /\ UNCHANGED <<prog, ran>>

RanNames == [i \in 1..Len(ran) |-> ran[i].name]
FirstBad == IF \E i \in 1..Len(prog) : prog[i] \notin Names
            THEN CHOOSE i \in 1..Len(prog) : prog[i] \notin Names /\ \A j \in 1..(i - 1) : prog[j] \in Names
            ELSE Len(prog) + 1
Prefix(t, n) == SubSeq(t, 1, n)
\* exactly the named strategies in order
InOrder == Len(ran) <= Len(prog) /\ RanNames = Prefix(prog, Len(ran))
Complete == s.status = "done" => RanNames = prog
StopsAtUnknown == s.status = "error" => Len(ran) = FirstBad - 1 /\ FirstBad <= Len(prog)
\* state is threaded
Threaded == \A i \in 1..Len(ran) :
    IF i = 1 THEN ran[1].in = [key |-> 1, res |-> 2, pos |-> 3] ELSE ran[i].in = ran[i - 1].out
Inv == InOrder /\ Complete /\ StopsAtUnknown /\ Threaded
\* liveness: every run ends (in a finished or failed state)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(s.status # "run")
=============================================================================
