---- MODULE MCLoader ----
\* (1) model: every order, every history on small data sets, invariants of the guarantee;
\* (2) generator: histories (op sequences) exported for the real loader (Gen = TRUE: orders not enumerated).
EXTENDS Loader, CSV, IOUtils, Json, Randomization
CONSTANTS Ns, Bss, Depth, Gen, Two, Sim, Fails
VARIABLES ls, ord, got, h, done
vars == <<ls, ord, got, h, done>>
Cfgs == {[n |-> n, bs |-> b, shuf |-> s, drop |-> d, fail |-> f, kind |-> k] :
           n \in Ns, b \in Bss, s \in BOOLEAN, d \in BOOLEAN, f \in (IF Fails THEN {{}, {0}, {1, 3}} ELSE {{}}), k \in (IF Gen THEN {"single", "pair", "multi", "tensor", "view"} ELSE {"single"})}
OkCfg(c) == (Gen /\ ~Sim /\ c.fail # {} => c.kind = "single") /\ (c.kind \in {"tensor", "view"} => c.fail = {} /\ c.n > 0) /\ \A x \in c.fail : x < c.n
Pairs == {<<c, d>> \in Cfgs \X Cfgs : OkCfg(c) /\ OkCfg(d) /\ c.n = d.n /\ c.shuf /\ d.shuf /\ c.kind = "single" /\ d.kind \in {"single", "pair"} /\ c.fail = d.fail}
Init == /\ \E cs \in (IF Two THEN Pairs ELSE {<<c>> : c \in {c \in Cfgs : OkCfg(c)}}) : ls = [i \in 1..Len(cs) |-> Start(cs[i])]
        /\ ord = <<>> /\ got = [i \in 1..Len(ls) |-> <<>>] /\ h = <<>> /\ done = FALSE
Orders(l, m) == {ids \in [1..m -> 0..(l.cfg.n - 1)] : Fits(l, ord, ids)}
\* after a failed batch the cursor stays or moves on
Step(i, op) ==
    LET l == ls[i] IN
    /\ h' = Append(h, [l |-> i, op |-> op])
    /\ done' = FALSE
    /\ CASE op = "next" ->
              IF ~HasNext(l) THEN UNCHANGED <<ls, ord, got>>
              ELSE IF Gen THEN /\ ls' = [ls EXCEPT ![i].cur = @ + Size(l)] /\ UNCHANGED <<ord, got>>
              ELSE \E ids \in Orders(l, Size(l)) :
                    /\ ord' = Learn(l, ord, ids)
                    /\ IF MustFail(l, ids) THEN (\E mv \in BOOLEAN : ls' = [ls EXCEPT ![i].cur = IF mv THEN @ + Size(l) ELSE @]) /\ UNCHANGED got
                       ELSE ls' = [ls EXCEPT ![i].cur = @ + Size(l)] /\ got' = [got EXCEPT ![i] = Append(@, ids)]
         [] op = "reset" -> /\ ls' = [ls EXCEPT ![i].ep = @ + 1, ![i].cur = 0]
                            /\ got' = [got EXCEPT ![i] = <<>>] /\ UNCHANGED ord
         [] op = "drain" -> /\ ls' = [ls EXCEPT ![i].cur = @ + l.cfg.bs * ((l.cfg.n - l.cur) \div l.cfg.bs)] /\ UNCHANGED <<ord, got>>
         [] OTHER -> UNCHANGED <<ls, ord, got>>
Ops == IF Gen THEN {"next", "reset", "drain", "take1"} ELSE {"next", "reset"}
Rec == [cfgs |-> [i \in 1..Len(ls) |-> ls[i].cfg], h |-> h]
Next == \/ /\ Len(h) < Depth
           /\ IF Sim THEN Step(RandomElement(1..Len(ls)), RandomElement({"next", "next2", "next3", "reset", "drain", "take1"}))
              ELSE \E i \in 1..Len(ls), op \in Ops : Step(i, op)
        \/ /\ Gen /\ Len(h) = Depth /\ ~done
           /\ CSVWrite("%1$s", <<ToJson(Rec)>>, IOEnv.OUT)
           /\ done' = TRUE /\ UNCHANGED <<ls, ord, got, h>>
Spec == Init /\ [][Next]_vars
\* --- the guarantee
Flat(bs) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o bs[k] IN F(Len(bs))
AtMostOnce == \A i \in 1..Len(ls) : LET f == Flat(got[i]) IN Cardinality(Rng(f)) = Len(f)
WholeEpoch == \A i \in 1..Len(ls) : LET l == ls[i] f == Flat(got[i]) IN
    l.cfg.fail = {} /\ ~HasNext(l) =>
        /\ Len(got[i]) = NumBatches(l.cfg)
        /\ Len(f) = (IF l.cfg.drop THEN l.cfg.bs * NumBatches(l.cfg) ELSE l.cfg.n)
        /\ ~l.cfg.shuf => f = [k \in 1..Len(f) |-> k - 1]
OneOrder == \A e \in DOMAIN ord : \A p, q \in DOMAIN ord[e] : p # q => ord[e][p] # ord[e][q]
Sizes == \A i \in 1..Len(ls) : ls[i].cfg.fail = {} => \A k \in 1..Len(got[i]) : LET b == Len(got[i][k]) IN b = ls[i].cfg.bs \/ (~ls[i].cfg.drop /\ k = NumBatches(ls[i].cfg) /\ b < ls[i].cfg.bs)
====
