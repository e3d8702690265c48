-------------------------------- MODULE Keys --------------------------------
(* Random keys form a tree: a key can be split into children, or drawn from, once.  A key is written as  *)
(* the path of child indices that leads to it from the key of the run.                                   *)
EXTENDS Integers, Sequences, FiniteSets
Child(k, i) == Append(k, i)
Prefix(k, m) == Len(k) <= Len(m) /\ SubSeq(m, 1, Len(k)) = k
\* a record of use: drawn is a sequence of [key, for], split a set of keys
DrawnKeys(drawn) == {drawn[i].key : i \in 1..Len(drawn)}
DrawnOnce(drawn) == \A i, j \in 1..Len(drawn) : i # j => drawn[i].key # drawn[j].key
NeverBoth(drawn, split) == DrawnKeys(drawn) \cap split = {}
=============================================================================
