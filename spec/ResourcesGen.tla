---------------------------- MODULE ResourcesGen ----------------------------
(* Random histories over buffers, states and files.                                                  *)
EXTENDS Resources, TLC, Json
CONSTANTS Depth
VARIABLES h, bs, ss, bf, sf
\* bs: per holder [name, shape, cdim]; ss: per holder of a state its name; bf, sf: saved names (bf with shape)
R(S) == RandomElement(S)
Shapes == {<<4>>, <<3, 4>>, <<2, 5>>, <<3, 3>>, <<2, 3, 2>>, <<1, 4, 1>>, <<2, 1, 3>>}
Names == {"a", "b", "long name", "x.y"}
Keys == {"training", "target", "n", "k"}
Vals == {"bool:True", "bool:False", "int:0", "int:7", "int:-3", "str:pos", "str:", "str:True", "int:1"}
Init == h = <<>> /\ bs = <<>> /\ ss = <<>> /\ bf = <<>> /\ sf = <<>>
NewB == \E sh \in {R(Shapes)} : \E d \in {R(0..(Len(sh) - 1))} : \E nm \in {R(Names)} :
        /\ h' = Append(h, [op |-> "new", name |-> nm, shape |-> sh, cdim |-> d])
        /\ bs' = Append(bs, [name |-> nm, shape |-> sh, cdim |-> d]) /\ UNCHANGED <<ss, bf, sf>>
Upd == \E i \in {R(1..Len(bs))} : \E n \in {R(1..bs[i].shape[bs[i].cdim + 1])} : \E s \in {R(0..(bs[i].shape[bs[i].cdim + 1] - n))} :
        /\ h' = Append(h, [op |-> "update", i |-> i, n |-> n, start |-> s, base |-> 100 * Len(h), kind |-> R({"plain", "plain2", "wild", "nan", "neg"})])
        /\ UNCHANGED <<bs, ss, bf, sf>>
Cur == \E i \in {R(1..Len(bs))} : h' = Append(h, [op |-> "cursor", i |-> i, c |-> R(0..5)]) /\ UNCHANGED <<bs, ss, bf, sf>>
Hold == \E i \in {R(1..Len(bs))} : h' = Append(h, [op |-> "hold", i |-> i]) /\ bs' = Append(bs, bs[i]) /\ UNCHANGED <<ss, bf, sf>>
Save == \E i \in {R(1..Len(bs))} : h' = Append(h, [op |-> "save", i |-> i]) /\ bf' = Append(bf, bs[i]) /\ UNCHANGED <<bs, ss, sf>>
\* the last file of that name counts
LastF(nm) == bf[CHOOSE k \in 1..Len(bf) : bf[k].name = nm /\ \A m \in (k + 1)..Len(bf) : bf[m].name # nm]
Load == bf # <<>> /\ \E k \in {R(1..Len(bf))} : \E v \in {R(1..Len(bs))} :
        h' = Append(h, [op |-> "load", name |-> bf[k].name, via |-> v]) /\ bs' = Append(bs, LastF(bf[k].name)) /\ UNCHANGED <<ss, bf, sf>>
KV(z) == [j \in 1..R(0..3) |-> <<R(Keys), R(Vals)>>]
NewS == \E nm \in {R(Names)} : h' = Append(h, [op |-> "snew", name |-> nm, kv |-> KV(0)]) /\ ss' = Append(ss, nm) /\ UNCHANGED <<bs, bf, sf>>
UpdS == ss # <<>> /\ \E i \in {R(1..Len(ss))} : h' = Append(h, [op |-> "supdate", i |-> i, kv |-> KV(0), how |-> R({"method", "strategy"})]) /\ UNCHANGED <<bs, ss, bf, sf>>
HoldS == ss # <<>> /\ \E i \in {R(1..Len(ss))} : h' = Append(h, [op |-> "shold", i |-> i]) /\ ss' = Append(ss, ss[i]) /\ UNCHANGED <<bs, bf, sf>>
SaveS == ss # <<>> /\ \E i \in {R(1..Len(ss))} : h' = Append(h, [op |-> "ssave", i |-> i]) /\ sf' = Append(sf, ss[i]) /\ UNCHANGED <<bs, ss, bf>>
LoadS == sf # <<>> /\ \E k \in {R(1..Len(sf))} : \E v \in {R(1..Len(ss))} :
        h' = Append(h, [op |-> "sload", name |-> sf[k], via |-> v]) /\ ss' = Append(ss, sf[k]) /\ UNCHANGED <<bs, bf, sf>>
Small == Len(bs) < 5
SmallS == Len(ss) < 4
Next == /\ Len(h) < Depth
        /\ IF bs = <<>> THEN NewB
           ELSE (Small /\ NewB) \/ Upd \/ (Len(h) > 0 /\ Upd) \/ Cur \/ (Small /\ Hold) \/ Save \/ (Small /\ Load)
                \/ (SmallS /\ NewS) \/ UpdS \/ (SmallS /\ HoldS) \/ SaveS \/ (SmallS /\ LoadS)
        /\ (Len(h') = Depth => PrintT(ToJson(h')))
=============================================================================
