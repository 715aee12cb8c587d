---- MODULE Loader ----
\* Data loader: what a loader over n samples may answer, as a function of its configuration and history.
\* The order of epoch e is one permutation per (seed, e), shared by every loader with that seed; it is
\* left open and learnt from the batches (ord[e] is the part known so far: position -> sample).
\* A loader: [n, bs, shuf, drop, fail] configuration, ep = number of resets, cur = cursor (a position),
\* loose = an error happened in this epoch (the cursor may or may not have moved on).
EXTENDS Naturals, Sequences, FiniteSets, TLC
Lmin(a, b) == IF a < b THEN a ELSE b
Rng(f) == {f[x] : x \in DOMAIN f}
Start(cfg) == [cfg |-> cfg, ep |-> 0, cur |-> 0]
HasNext(l) == IF l.cfg.drop THEN l.cur + l.cfg.bs <= l.cfg.n ELSE l.cur < l.cfg.n
Size(l) == Lmin(l.cfg.bs, l.cfg.n - l.cur)
NumBatches(cfg) == IF cfg.drop THEN cfg.n \div cfg.bs ELSE (cfg.n + cfg.bs - 1) \div cfg.bs
Known(ord, e) == IF e \in DOMAIN ord THEN ord[e] ELSE <<>>      \* a function on positions
\* the samples `ids` may be the ones at positions cur, cur+1, ... of the epoch's order
Fits(l, ord, ids) ==
    LET k == Known(ord, l.ep) IN
    /\ Len(ids) = Size(l)
    /\ \A i \in 1..Len(ids) : LET p == l.cur + i - 1 IN
        /\ ids[i] \in 0..(l.cfg.n - 1)
        /\ ~l.cfg.shuf => ids[i] = p
        /\ p \in DOMAIN k => k[p] = ids[i]
        /\ p \notin DOMAIN k => ids[i] \notin Rng(k)
        /\ \A j \in 1..(i-1) : ids[j] # ids[i]
Learn(l, ord, ids) == LET k == Known(ord, l.ep) IN
    ((l.ep :> [p \in DOMAIN k \cup l.cur..(l.cur + Len(ids) - 1) |-> IF p \in DOMAIN k THEN k[p] ELSE ids[p - l.cur + 1]]) @@ ord)
\* a batch of this loader may fail only if one of the failing samples can be in it
MayFail(l, ord) == LET k == Known(ord, l.ep) IN
    \E p \in l.cur..(l.cur + Size(l) - 1) :
        IF ~l.cfg.shuf THEN p \in l.cfg.fail ELSE IF p \in DOMAIN k THEN k[p] \in l.cfg.fail ELSE \E x \in l.cfg.fail : x \notin Rng(k)
MustFail(l, ids) == \E i \in 1..Len(ids) : ids[i] \in l.cfg.fail
====
