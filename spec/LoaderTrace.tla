---- MODULE LoaderTrace ----
\* Accepts a recorded run of real loaders iff it is a behaviour of Loader. One initial state per recorded run;
\* accepted runs are written out; the driver reports the others with the first event not allowed.
EXTENDS Loader, CSV, IOUtils, Json
Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, ls, ord
vars == <<t, i, ls, ord>>
SetOf(s) == {s[k] : k \in 1..Len(s)}
Cfg(c) == [n |-> c.n, bs |-> c.bs, shuf |-> c.shuf, drop |-> c.drop, fail |-> SetOf(c.fail)]
Init == /\ t \in 1..Len(Runs) /\ i = 1 /\ ord = <<>>
        /\ ls = [k \in 1..Len(Runs[t].cfgs) |-> Start(Cfg(Runs[t].cfgs[k]))]
E == Runs[t].ev[i]
Advance(l) == [ls EXCEPT ![l].cur = @ + Size(ls[l])]
\* a shuffled epoch of many samples, all of it seen, is not in data set order, and consecutive ones differ
Full(e, n) == Cardinality(DOMAIN Known(ord', e)) = n
Mixed == LET c == ls[1].cfg IN c.shuf /\ c.n >= 12 =>
    /\ \A e \in DOMAIN ord' : Full(e, c.n) => \E p \in 0..(c.n - 1) : ord'[e][p] # p
    /\ \A e \in DOMAIN ord' : e + 1 \in DOMAIN ord' /\ Full(e, c.n) /\ Full(e + 1, c.n) => ord'[e] # ord'[e + 1]
Next == /\ i <= Len(Runs[t].ev)
        /\ LET l == ls[E.l] IN
            \/ /\ E.r = "batch" /\ HasNext(l) /\ Fits(l, ord, E.ids) /\ ~MustFail(l, E.ids)
               /\ ord' = Learn(l, ord, E.ids) /\ ls' = Advance(E.l) /\ Mixed
            \/ /\ E.r = "end" /\ ~HasNext(l) /\ UNCHANGED <<ls, ord>>
            \/ /\ E.r = "err" /\ HasNext(l) /\ MayFail(l, ord) /\ UNCHANGED ord /\ (UNCHANGED ls \/ ls' = Advance(E.l))
            \/ /\ E.r = "reset" /\ ls' = [ls EXCEPT ![E.l].ep = @ + 1, ![E.l].cur = 0] /\ UNCHANGED ord
            \/ /\ E.r = "state" /\ E.has = HasNext(l) /\ E.num = NumBatches(l.cfg) /\ E.bs = l.cfg.bs /\ UNCHANGED <<ls, ord>>
        /\ i' = i + 1 /\ UNCHANGED t
        /\ (i = Len(Runs[t].ev) \/ IOEnv.ALL = "1") => CSVWrite("%1$s", <<ToString(t) \o " " \o ToString(i + 1)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars
====
