------------------------------- MODULE Bundle -------------------------------
(* A ready-made sampler: the effects of a run, in order, for a configuration                         *)
(* [nl, ng, lt, gt: local/global steps and thinnings; tr, pr: training/production loops; ep: epochs;  *)
(*  pt: number of temperatures, 0 without tempering; nts: tempered steps per round]. *)
EXTENDS Integers, Sequences
RecL(c) == c.nl \div c.lt
RecG(c) == c.ng \div c.gt
PerLoop(c) == RecL(c) + RecG(c)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN <<>> ELSE s \o Rep(s, n - 1)
\* tempered steps per round: as many as local steps unless given; no tempering without hot replicas
Tempered(c) == IF c.nts > 0 THEN c.nts ELSE c.nl
Filter(s, c) == SelectSeq(s, LAMBDA e : (e.k # "local" \/ RecL(c) > 0) /\ (e.k # "global" \/ RecG(c) > 0) /\ (e.k \notin {"init", "pt"} \/ c.pt > 1))
E(k, b) == [k |-> k, b |-> b]
Effects(c) == Filter(<<E("init", "T")>> \o Rep(<<E("pt", "T"), E("local", "T"), E("train", "T"), E("global", "T")>>, c.tr)
                     \o Rep(<<E("pt", "P"), E("local", "P"), E("global", "P")>>, c.pr), c)
Size(c, b) == PerLoop(c) * (IF b = "T" THEN c.tr ELSE c.pr)
=============================================================================
