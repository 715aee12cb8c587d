---- MODULE SamplerTrace ----
\* Samplers: the generator of cases (Init ranges over them) and the acceptance predicate of recorded answers.
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json
CONSTANTS Generate, MaxN
VARIABLES c, done
vars == <<c, done>>
Idxs == UNION {[1..m -> 0..5] : m \in 0..2} \cup {<<3, 3, 1>>, <<5, 4, 3, 2, 1, 0>>, <<7, 7, 7, 7>>, <<0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22>>}
Id(n) == [i \in 1..n |-> i - 1]
Cases == [k : {"seq", "rand"}, idx : {Id(n) : n \in 0..MaxN} \cup {Id(23)}, bs : {1, 2, 3, 5, 50}, drop : BOOLEAN, seed : {-1, 0, 1, 77}]
     \cup [k : {"randidx", "subset"}, idx : Idxs, bs : {1, 2, 3}, drop : BOOLEAN, seed : {-1, 0, 9}]
Recs == IF Generate THEN <<>> ELSE ndJsonDeserialize(IOEnv.TRACES)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
PermOf(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Flat(bs) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o bs[k] IN F(Len(bs))
Batched(s, b, bs, drop) ==
    LET n == Len(s) m == IF drop THEN n \div bs ELSE (n + bs - 1) \div bs IN
    /\ Len(b) = m
    /\ Flat(b) = SubSeq(s, 1, IF drop THEN m * bs ELSE n)
    /\ \A i \in 1..m : Len(b[i]) = bs \/ (i = m /\ ~drop /\ Len(b[i]) = n - bs * (m - 1))
Accept(r) == r.ok /\ LET s == r.s.a IN
    /\ r.s.b = s /\ r.t = r.s                               \* the same every time, and from the same seed
    /\ r.s.len = Len(r.idx) /\ (r.s.empty <=> r.idx = <<>>)
    /\ IF r.k \in {"seq", "subset"} THEN s = r.idx ELSE PermOf(s, r.idx)
    /\ (r.k = "rand" /\ Len(s) >= 12) => s # r.idx           \* a shuffle shuffles
    /\ Batched(s, r.b, r.bs, r.drop)
Init == /\ c \in (IF Generate THEN Cases ELSE 1..Len(Recs)) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ IF Generate THEN CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.OUT)
           ELSE Accept(Recs[c]) /\ CSVWrite("%1$s", <<ToString(c) \o " 2">>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars
====
