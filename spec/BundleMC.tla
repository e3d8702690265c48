------------------------------ MODULE BundleMC ------------------------------
(* The design: two steppers with write positions of their own that are handed over, a switch that     *)
(* redirects the targets and resets the positions.  All small configurations are explored.            *)
EXTENDS Bundle, FiniteSets
CONSTANTS Variant, MaxN, MaxThin, MaxLoops
VARIABLES c, prog, cl, cg, target, ver, gver, buf, loss, eff, seq, frozen, hot
vars == <<c, prog, cl, cg, target, ver, gver, buf, loss, eff, seq, frozen, hot>>
Train == IF Variant = "trainlate" THEN <<"local", "handL", "global", "handG", "train", "copy">>
         ELSE IF Variant = "nocopy" THEN <<"local", "handL", "train", "global", "handG">>
         ELSE IF Variant = "nohand" THEN <<"local", "train", "copy", "global", "handG">>
         ELSE <<"local", "handL", "train", "copy", "global", "handG">>
Pt(k) == IF k.pt > 1 THEN <<"pt">> ELSE <<>>
Prod == <<"local", "handL", "global", "handG">>
SwitchProg == IF Variant = "noreset" THEN <<"switch">> ELSE <<"reset", "switch">>
Program(k) == (IF k.pt > 1 /\ Variant # "noinit" THEN <<"init">> ELSE <<>>) \o Rep(Pt(k) \o Train, k.tr) \o SwitchProg
              \o Rep((IF Variant = "coldprod" THEN <<>> ELSE Pt(k)) \o Prod, k.pr)
Len0(k, b) == Size(k, b)
Empty(k, b) == [i \in 1..Len0(k, b) |-> 0]
Init == /\ c \in [nl : 1..MaxN, ng : 1..MaxN, lt : 1..MaxThin, gt : 1..MaxThin, tr : 0..MaxLoops, pr : 0..MaxLoops, ep : 1..1, pt : {0, 3}, nts : {-1, 2}]
        /\ prog = Program(c) /\ cl = 0 /\ cg = 0 /\ target = "T" /\ ver = 0 /\ gver = 0 /\ loss = 0 /\ eff = <<>> /\ seq = 0
        /\ buf = [b \in {"T", "P"} |-> Empty(c, b)] /\ frozen = <<>> /\ hot = -1
\* a write of n entries at position p, clamped into the buffer as the array update does
Clamp(p, n, len) == IF p > len - n THEN (IF len - n < 0 THEN 0 ELSE len - n) ELSE p
Write(p, n) == LET len == Len(buf[target]) at == Clamp(p, n, len) IN
  [buf EXCEPT ![target] = [i \in 1..len |-> IF i > at /\ i <= at + n THEN seq + (i - at) ELSE @[i]]]
Do(op) ==
  CASE op = "local" -> /\ buf' = Write(cl, RecL(c)) /\ cl' = cl + RecL(c) /\ seq' = seq + RecL(c)
                       /\ eff' = (IF RecL(c) > 0 THEN Append(eff, E("local", target)) ELSE eff) /\ UNCHANGED <<cg, target, ver, gver, loss, frozen, hot>>
    [] op = "global" -> /\ buf' = Write(cg, RecG(c)) /\ cg' = cg + RecG(c) /\ seq' = seq + RecG(c)
                        /\ eff' = (IF RecG(c) > 0 THEN Append(eff, E("global", target)) ELSE eff) /\ UNCHANGED <<cl, target, ver, gver, loss, frozen, hot>>
    [] op = "init" -> hot' = 0 /\ eff' = Append(eff, E("init", target)) /\ UNCHANGED <<cl, cg, target, ver, gver, buf, loss, seq, frozen>>
    [] op = "pt" -> hot' = hot + (IF Variant = "locals" THEN c.nl ELSE Tempered(c)) /\ eff' = Append(eff, E("pt", target))
                    /\ UNCHANGED <<cl, cg, target, ver, gver, buf, loss, seq, frozen>>
    [] op = "handL" -> cg' = cl /\ UNCHANGED <<cl, target, ver, gver, buf, loss, eff, seq, frozen, hot>>
    [] op = "handG" -> cl' = cg /\ UNCHANGED <<cg, target, ver, gver, buf, loss, eff, seq, frozen, hot>>
    [] op = "train" -> ver' = ver + 1 /\ loss' = loss + c.ep /\ eff' = Append(eff, E("train", target)) /\ UNCHANGED <<cl, cg, target, gver, buf, seq, frozen, hot>>
    [] op = "copy" -> gver' = ver /\ UNCHANGED <<cl, cg, target, ver, buf, loss, eff, seq, frozen, hot>>
    [] op = "reset" -> cl' = 0 /\ cg' = 0 /\ UNCHANGED <<target, ver, gver, buf, loss, eff, seq, frozen, hot>>
    [] op = "switch" -> target' = "P" /\ frozen' = <<buf["T"], ver, gver, loss>> /\ UNCHANGED <<cl, cg, ver, gver, buf, loss, eff, seq, hot>>
Next == prog # <<>> /\ Do(Head(prog)) /\ prog' = Tail(prog) /\ UNCHANGED c
\* at the global steps the flow in use is the most recently trained one
Fresh == prog # <<>> /\ Head(prog) = "global" => gver = ver
Order(b) == [i \in 1..Len(buf[b]) |-> i + (IF b = "P" THEN Len(buf["T"]) ELSE 0)]
Done == prog = <<>> => /\ eff = Effects(c) /\ buf["T"] = Order("T") /\ buf["P"] = Order("P") /\ loss = c.tr * c.ep
                    /\ hot = (IF c.pt > 1 THEN (c.tr + c.pr) * Tempered(c) ELSE -1)
Frozen == frozen # <<>> => frozen = <<buf["T"], ver, gver, loss>>
Inv == Fresh /\ Done /\ Frozen
=============================================================================
