--------------------------- MODULE ResourcesTrace ---------------------------
(* Recordings of real buffers, states, flows and targets against Resources.tla.  After every operation  *)
(* every holder is read.                                                                             *)
EXTENDS TraceLib, Resources
VARIABLES tid, l, st, bad
Ev == Traces[tid].ev
\* sequences of <<key, value>> as functions
Fn(kv) == [k \in {kv[i][1] : i \in 1..Len(kv)} |-> kv[CHOOSE i \in 1..Len(kv) : kv[i][1] = k /\ \A j \in (i + 1)..Len(kv) : kv[j][1] # k][2]]
Keys(kv) == [i \in 1..Len(kv) |-> kv[i][1]]
Vals(kv) == [i \in 1..Len(kv) |-> kv[i][2]]
\* world: buf, sta: objects; hb, hs: holders; fb, fs: files (sequences, the last of a name counts)
W0 == [buf |-> <<>>, sta |-> <<>>, hb |-> <<>>, hs |-> <<>>, fb |-> <<>>, fs |-> <<>>]
Last(fs, nm) == fs[CHOOSE k \in 1..Len(fs) : fs[k].name = nm /\ \A m \in (k + 1)..Len(fs) : fs[m].name # nm]
Post(w, e) ==
  CASE e.op = "new" -> [w EXCEPT !.buf = Append(@, New(e.name, e.shape, e.cdim)), !.hb = Append(@, Len(w.buf) + 1)]
    [] e.op = "update" -> [w EXCEPT !.buf[w.hb[e.i]] = Update(@, e.vals, e.n, e.start)]
    [] e.op = "cursor" -> [w EXCEPT !.buf[w.hb[e.i]] = SetCursor(@, e.c)]
    [] e.op = "hold" -> [w EXCEPT !.hb = Append(@, w.hb[e.i])]
    [] e.op = "save" -> [w EXCEPT !.fb = Append(@, w.buf[w.hb[e.i]])]
    [] e.op = "load" -> [w EXCEPT !.buf = Append(@, Last(w.fb, e.name)), !.hb = Append(@, Len(w.buf) + 1)]
    [] e.op = "snew" -> [w EXCEPT !.sta = Append(@, [name |-> e.name, data |-> Fn(e.kv)]), !.hs = Append(@, Len(w.sta) + 1)]
    [] e.op = "supdate" -> [w EXCEPT !.sta[w.hs[e.i]] = UpdateState(@, Keys(e.kv), Vals(e.kv))]
    [] e.op = "shold" -> [w EXCEPT !.hs = Append(@, w.hs[e.i])]
    [] e.op = "ssave" -> [w EXCEPT !.fs = Append(@, w.sta[w.hs[e.i]])]
    [] e.op = "sload" -> [w EXCEPT !.sta = Append(@, Last(w.fs, e.name)), !.hs = Append(@, Len(w.sta) + 1)]
    [] OTHER -> w
Stores(op) == op \in {"save", "load", "ssave", "sload"}
Name(op, s) == (IF Stores(op) THEN "store-" ELSE "use-") \o op \o "-" \o s
History(w, e) ==
  LET p == Post(w, e) IN
  C(Len(e.bufs) = Len(p.hb) /\ Len(e.stas) = Len(p.hs), Name(e.op, "holders"))
  \o C(\A i \in 1..Len(p.hb) : e.bufs[i].name = p.buf[p.hb[i]].name, Name(e.op, "name"))
  \o C(\A i \in 1..Len(p.hb) : e.bufs[i].shape = p.buf[p.hb[i]].shape, Name(e.op, "shape"))
  \o C(\A i \in 1..Len(p.hb) : e.bufs[i].data = p.buf[p.hb[i]].data, Name(e.op, "contents"))
  \o C(\A i \in 1..Len(p.hb) : e.bufs[i].cursor = p.buf[p.hb[i]].cursor, Name(e.op, "cursor"))
  \o C(\A i \in 1..Len(p.hb) : e.bufs[i].cdim = p.buf[p.hb[i]].cdim, Name(e.op, "cursor-dimension"))
  \o C(\A i \in 1..Len(p.hs) : e.stas[i].name = p.sta[p.hs[i]].name, Name(e.op, "state-name"))
  \o C(\A i \in 1..Len(p.hs) : Fn(e.stas[i].kv) = p.sta[p.hs[i]].data, Name(e.op, "state-entries"))
  \* the read-outs of the object, and the type of its contents, agree with it
  \o C(\A i \in 1..Len(p.hb) : e.bufs[i].call = e.bufs[i].data /\ e.bufs[i].type = "jax-default", Name(e.op, "read-out"))
\* flows and targets: two observations that must be equal (or must differ)
Same(e) == C(e.a = e.b, e.what)
Different(e) == C(e.a # e.b, e.what)
Step(w, e) ==
  CASE e.op = "same" -> [st |-> w, bad |-> Same(e)]
    [] e.op = "different" -> [st |-> w, bad |-> Different(e)]
    [] OTHER -> [st |-> Post(w, e), bad |-> History(w, e)]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = W0 /\ bad = <<>>
Next == /\ l <= Len(Ev)
        /\ LET r == Step(st, Ev[l]) IN st' = r.st /\ bad' = Add(bad, l, r.bad)
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ (l = Len(Ev) => Verdict(tid, bad'))
=============================================================================
