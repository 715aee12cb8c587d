-------------------------------- MODULE TT --------------------------------
(* Tensor theory: a tensor is [s |-> shape, d |-> elements in row-major order].
   Everything else in the tensor specifications is defined by comprehension over
   coordinates (0-based), i.e. as the textbook definition; no strides, no storage. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Prod(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Range0(n) == 0 .. n-1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b
\* truncated division and remainder (C / Rust), exact when b # 0
TDiv(a, b) == IF (a >= 0) = (b > 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TRem(a, b) == a - b * TDiv(a, b)

\* row-major weights of a shape: RM(<<2,3,4>>) = <<12,4,1>>
RM(sh) == [i \in 1..Len(sh) |-> Prod(SubSeq(sh, i+1, Len(sh)))]
Size(sh) == Prod(sh)

\* element number k (0-based) of shape sh -> coordinates; and back
UnravW(k, sh, w) == [i \in 1..Len(sh) |-> (k \div w[i]) % sh[i]]
Unrav(k, sh) == UnravW(k, sh, RM(sh))
Rav(ix, sh) == LET w == RM(sh) IN SumSeq([i \in 1..Len(sh) |-> ix[i] * w[i]])

\* the tensor of shape sh whose element at coordinates ix is F(ix)
Build(sh, F(_)) == LET w == TLCEval(RM(sh)) IN
    [s |-> sh, d |-> TLCEval([k \in 1..Prod(sh) |-> F(TLCEval(UnravW(k-1, sh, w)))])]
At(t, ix) == t.d[Rav(ix, t.s) + 1]
Rank(t) == Len(t.s)
NumEl(t) == Len(t.d)
Map(t, F(_)) == [s |-> t.s, d |-> TLCEval([k \in 1..Len(t.d) |-> F(t.d[k])])]
Scal(v) == [s |-> <<>>, d |-> <<v>>]
Vec(q) == [s |-> <<Len(q)>>, d |-> q]
Iota(sh, base) == [s |-> sh, d |-> TLCEval([k \in 1..Prod(sh) |-> base + k])]

\* axis in -r .. r-1 -> 1-based position
Ax(a, r) == IF a < 0 THEN a + r + 1 ELSE a + 1
Axes(r) == (-r) .. (r-1)

\* sequence surgery
Drop1(q, i) == SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
Ins1(q, i, v) == SubSeq(q, 1, i-1) \o <<v>> \o SubSeq(q, i, Len(q))
Set1(q, i, v) == [q EXCEPT ![i] = v]
Pos(q, v) == CHOOSE i \in 1..Len(q) : q[i] = v

\* broadcasting
BDim(sh, i, r) == IF i <= r - Len(sh) THEN 1 ELSE sh[i - (r - Len(sh))]
BOk(a, b) == LET r == Max2(Len(a), Len(b)) IN
    \A i \in 1..r : LET x == BDim(a, i, r) y == BDim(b, i, r) IN x = y \/ x = 1 \/ y = 1
BShape(a, b) == LET r == Max2(Len(a), Len(b)) IN
    [i \in 1..r |-> LET x == BDim(a, i, r) y == BDim(b, i, r) IN IF x = 1 THEN y ELSE x]
\* coordinates of the element of shape sh that lands on coordinates ix of a broadcast shape
BIdx(ix, sh) == LET r == Len(ix) IN
    [i \in 1..Len(sh) |-> IF sh[i] = 1 THEN 0 ELSE ix[i + r - Len(sh)]]
BroadcastTo(t, sh) == Build(sh, LAMBDA ix : At(t, BIdx(ix, t.s)))
CanBroadcastTo(a, sh) == /\ Len(a) <= Len(sh)
                         /\ \A i \in 1..Len(sh) : LET x == BDim(a, i, Len(sh)) IN x = sh[i] \/ x = 1
ZipT(a, b, F(_,_)) == LET sh == TLCEval(BShape(a.s, b.s)) IN
    Build(sh, LAMBDA ix : F(At(a, BIdx(ix, a.s)), At(b, BIdx(ix, b.s))))

\* all factorisations of n with at most r factors, each >= 1 (shapes of n elements)
RECURSIVE ShapesOf(_, _)
ShapesOf(n, r) == IF r = 0 THEN (IF n = 1 THEN {<<>>} ELSE {})
    ELSE (IF n = 1 THEN {<<>>} ELSE {}) \cup
         UNION {{<<f>> \o q : q \in ShapesOf(n \div f, r-1)} : f \in {g \in 1..n : n % g = 0}}
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
SeqsOver(S, n) == [1..n -> S]
\* a random function 1..n -> S as a sequence of independent picks (simulation mode only)
RandSeq(S, n) == [i \in 1..n |-> RandomElement(S)]
Rnd(S) == RandomElement(S)
===========================================================================
