------------------------------- MODULE Reduce -------------------------------
(* Reductions, scans and selection along axes, by definition: every output element is a
   function of the sequence of input elements that share its kept coordinates, taken in
   row-major order of the reduced coordinates. *)
EXTENDS Dress
AxSet(dims, r) == IF dims = <<>> THEN 1..r ELSE {Ax(dims[i], r) : i \in 1..Len(dims)}
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Sub1(q, ax) == [i \in 1..Len(ax) |-> q[ax[i]]]
\* coordinates with kept part o (along axes K) and reduced part m (along axes R)
Merge(r, K, R, o, m) == [i \in 1..r |-> IF \E j \in 1..Len(K) : K[j] = i THEN o[Pos(K, i)] ELSE m[Pos(R, i)]]
Group(t, K, R, o) == LET rs == TLCEval(Sub1(t.s, R)) IN
    TLCEval([j \in 1..Prod(rs) |-> At(t, Merge(Len(t.s), K, R, o, Unrav(j - 1, rs)))])
Red(t, dims, keep, F(_)) ==
    LET r == Len(t.s) A == TLCEval(AxSet(dims, r))
        R == TLCEval(SortedSeq(A)) K == TLCEval(SortedSeq((1..r) \ A))
        ks == TLCEval(Sub1(t.s, K))
        out == Build(ks, LAMBDA o : F(Group(t, K, R, o)))
    IN IF keep THEN [s |-> [i \in 1..r |-> IF i \in A THEN 1 ELSE t.s[i]], d |-> out.d] ELSE out
\* the line of t through ix along axis a (1-based)
Line(t, ix, a) == TLCEval([j \in 1..t.s[a] |-> At(t, [ix EXCEPT ![a] = j - 1])])
\* F(line, position) at every coordinate
Along(t, dim, F(_, _)) == LET a == Ax(dim, Len(t.s)) IN Build(t.s, LAMBDA ix : F(Line(t, ix, a), ix[a] + 1))
CumSum(t, dim) == Along(t, dim, LAMBDA q, j : SumSeq(SubSeq(q, 1, j)))
\* top-k of distinct numbers: positions in decreasing (increasing) order
Order(q, largest) == SetToSortSeq(1..Len(q), LAMBDA i, j : IF largest THEN q[i] > q[j] \/ (q[i] = q[j] /\ i < j) ELSE q[i] < q[j] \/ (q[i] = q[j] /\ i < j))
TopK(t, k, dim, largest) == LET a == Ax(dim, Len(t.s)) sh == Set1(t.s, a, k) IN
    <<Build(sh, LAMBDA ix : LET q == Line(t, ix, a) IN q[Order(q, largest)[ix[a] + 1]]),
      Build(sh, LAMBDA ix : LET q == Line(t, ix, a) IN Order(q, largest)[ix[a] + 1] - 1)>>
FirstPos(q, P(_)) == CHOOSE i \in 1..Len(q) : P(q[i]) /\ \A j \in 1..(i-1) : ~P(q[j])
MaxOf(q) == FoldLeft(LAMBDA a, b : Max2(a, b), q[1], q)
MinOf(q) == FoldLeft(LAMBDA a, b : Min2(a, b), q[1], q)
\* exact integer reductions
IntRed(op, q) ==
    CASE op \in {"sum", "sum_all"} -> SumSeq(q)
      [] op = "prod" -> Prod(q)
      [] op = "max" -> MaxOf(q)
      [] op = "min" -> MinOf(q)
      [] op = "argmax" -> FirstPos(q, LAMBDA x : x = MaxOf(q)) - 1
      [] op = "argmin" -> FirstPos(q, LAMBDA x : x = MinOf(q)) - 1
      [] op = "any" -> IF \E i \in 1..Len(q) : q[i] # 0 THEN 1 ELSE 0
      [] op = "all" -> IF \A i \in 1..Len(q) : q[i] # 0 THEN 1 ELSE 0
      [] op = "l1_norm" -> SumSeq([i \in 1..Len(q) |-> Abs(q[i])])
IntOps == {"sum", "prod", "max", "min", "argmax", "argmin", "any", "all", "l1_norm"}
\* reductions of reals, as terms
TSum(q) == <<"sum">> \o q
Mean(q) == <<"/", TSum(q), Len(q)>>
Var(q) == LET m == Mean(q) IN Mean([i \in 1..Len(q) |-> <<"sq", <<"-", q[i], m>>>>])
PNorm(q, p) == <<"pow", TSum([i \in 1..Len(q) |-> <<"pow", <<"abs", q[i]>>, p>>]), <<"/", 1, p>>>>
Lse(q) == LET m == <<"maxof">> \o q IN
    <<"if", <<"isinf", m>>, m, <<"+", m, <<"ln", TSum([i \in 1..Len(q) |-> <<"exp", <<"-", q[i], m>>>>])>>>>>>
RealRed(op, q, p) ==
    CASE op = "sum" -> TSum(q)
      [] op \in {"mean"} -> Mean(q)
      [] op = "prod" -> <<"prod">> \o q
      [] op = "max" -> <<"maxof">> \o q
      [] op = "min" -> <<"minof">> \o q
      [] op = "var" -> Var(q)
      [] op = "std" -> <<"sqrt", Var(q)>>
      [] op = "l2_norm" -> <<"sqrt", TSum([i \in 1..Len(q) |-> <<"sq", q[i]>>])>>
      [] op = "l1_norm" -> TSum([i \in 1..Len(q) |-> <<"abs", q[i]>>])
      [] op = "norm" -> PNorm(q, p)
      [] op = "logsum" -> <<"ln", TSum(q)>>
      [] op = "logsumexp" -> Lse(q)
RealOps == {"sum", "mean", "prod", "max", "min", "var", "std", "l2_norm", "l1_norm", "norm", "logsum", "logsumexp"}
SoftMax(q, j) == LET m == <<"maxof">> \o q IN
    <<"/", <<"exp", <<"-", q[j], m>>>>, TSum([i \in 1..Len(q) |-> <<"exp", <<"-", q[i], m>>>>])>>
LogSoftMax(q, j) == <<"-", q[j], Lse(q)>>
=============================================================================
