---- MODULE MCDatasets ----
\* Compositions of data sets: an expression denotes a sequence of sample ids; -1 is "no such sample".
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json
CONSTANTS Deep
VARIABLES e, done
vars == <<e, done>>
Leaf(b, n, v, l) == [op |-> "leaf", base |-> b, n |-> n, view |-> v, lab |-> l]
Sub(d, ix) == [op |-> "sub", of |-> d, idx |-> ix]
Cat(ds) == [op |-> "cat", of |-> ds]
RECURSIVE Den(_)
Den(x) == CASE x.op = "leaf" -> [i \in 1..x.n |-> x.base + i - 1]
            [] x.op = "sub" -> LET d == Den(x.of) IN [i \in 1..Len(x.idx) |-> IF x.idx[i] < Len(d) THEN d[x.idx[i] + 1] ELSE -1]
            [] x.op = "cat" -> LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o Den(x.of[k]) IN F(Len(x.of))
Leaves == {Leaf(10, n, v, l) : n \in 1..3, v \in BOOLEAN, l \in BOOLEAN} \cup {Leaf(40, 2, FALSE, FALSE), Leaf(60, 7, TRUE, TRUE)}
Ix == {<<>>, <<0>>, <<1>>, <<1, 0>>, <<0, 0>>, <<2, 0, 1>>, <<4, 1>>, <<9>>}
L2 == {Leaf(10, 1, FALSE, FALSE), Leaf(20, 3, FALSE, TRUE), Leaf(60, 7, TRUE, TRUE)}
S1 == {Sub(d, ix) : d \in Leaves, ix \in Ix}
S2 == {Sub(Leaf(60, 7, TRUE, TRUE), ix) : ix \in Ix}
C1 == {Cat(<<>>)} \cup {Cat(<<a>>) : a \in Leaves} \cup {Cat(<<a, b>>) : a \in L2 \cup S2, b \in L2 \cup S2} \cup {Cat(<<a, b, d>>) : a \in L2 \cup {Sub(Leaf(60, 7, TRUE, TRUE), <<>>)}, b \in L2 \cup {Sub(Leaf(40, 2, FALSE, FALSE), <<>>)}, d \in L2}
SC == {Sub(d, ix) : d \in C1, ix \in {<<0, 3>>, <<5, 1, 1>>, <<2>>}}
CC == {Cat(<<a, b>>) : a \in (IF Deep THEN C1 ELSE {Cat(<<>>), Cat(<<Leaf(10, 1, FALSE, FALSE), Leaf(20, 3, FALSE, TRUE)>>)}), b \in C1}
SSC == IF Deep THEN {Sub(d, ix) : d \in SC \cup CC, ix \in {<<1, 0>>, <<3>>}} ELSE {Sub(d, <<1, 0>>) : d \in SC}
Exprs == Leaves \cup S1 \cup C1 \cup SC \cup CC \cup SSC
\* fractions the single-precision product represents exactly
Fracs == {<<1, 2>>, <<1, 4>>, <<0, 1>>, <<1, 1>>, <<3, 4>>}
Init == e \in [x : Exprs, f : Fracs] /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED e
        /\ LET d == Den(e.x) n == Len(d) IN
           CSVWrite("%1$s", <<ToJson([e |-> e.x, len |-> n, want |-> d \o <<-1, -1>>, num |-> e.f[1], den |-> e.f[2], split |-> (n * e.f[1]) \div e.f[2]])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars
\* laws of the denotation
Laws == LET d == Den(e.x) IN
    /\ e.x.op = "cat" => Len(d) = LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE F(k - 1) + Len(Den(e.x.of[k])) IN F(Len(e.x.of))
    /\ e.x.op = "sub" => Len(d) = Len(e.x.idx)
    /\ Den(Sub(e.x, [i \in 1..Len(d) |-> i - 1])) = d /\ Den(Cat(<<Cat(<<>>), e.x>>)) = d
====
