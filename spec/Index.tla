------------------------------- MODULE Index --------------------------------
(* Indexing, joining, splitting, padding and windows, by definition: which element (or
   which elements, in which order) of the operands each coordinate of the result shows. *)
EXTENDS Reduce
\* an index counted from the end resolves against the extent of its axis
Res(i, n) == IF i < 0 THEN i + n ELSE i
IndexSelect(t, dim, ind) == LET a == Ax(dim, Len(t.s)) IN
    Build(Set1(t.s, a, Len(ind.d)), LAMBDA ix : At(t, [ix EXCEPT ![a] = Res(ind.d[ix[a] + 1], t.s[a])]))
\* indices must be distinct positions here
IndexPut(t, dim, ind, v) == LET a == Ax(dim, Len(t.s)) IN
    Build(t.s, LAMBDA ix : LET P == {j \in 1..Len(ind.d) : Res(ind.d[j], t.s[a]) = ix[a]} IN
        IF P = {} THEN At(t, ix) ELSE At(v, [ix EXCEPT ![a] = Min(P) - 1]))
Gather(t, dim, ind) == LET a == Ax(dim, Len(t.s)) IN
    Build(ind.s, LAMBDA ix : At(t, [ix EXCEPT ![a] = Res(At(ind, ix), t.s[a])]))
\* F(old, new) applied for every source element in row-major order
Scatter(t, dim, ind, src, F(_, _)) ==
    LET a == Ax(dim, Len(t.s)) w == TLCEval(RM(ind.s))
        tgt == TLCEval([k \in 1..Len(src.d) |-> LET ix == UnravW(k - 1, ind.s, w) IN Rav([ix EXCEPT ![a] = Res(ind.d[k], t.s[a])], t.s) + 1])
    IN [s |-> t.s, d |-> TLCEval([p \in 1..Len(t.d) |->
           FoldLeft(LAMBDA acc, k : IF tgt[k] = p THEN F(acc, src.d[k]) ELSE acc, t.d[p], [k \in 1..Len(src.d) |-> k])])]
ScatterOf(op, t, dim, ind, src) ==
    CASE op = "scatter" -> Scatter(t, dim, ind, src, LAMBDA x, y : y)
      [] op = "scatter_add" -> Scatter(t, dim, ind, src, LAMBDA x, y : x + y)
      [] op = "scatter_max" -> Scatter(t, dim, ind, src, LAMBDA x, y : Max2(x, y))
      [] op = "scatter_min" -> Scatter(t, dim, ind, src, LAMBDA x, y : Min2(x, y))
OneHot(ind, n, axis) == LET a == IF axis < 0 THEN axis + Len(ind.s) + 2 ELSE axis + 1 IN
    Build(Ins1(ind.s, a, n), LAMBDA ix : IF At(ind, Drop1(ix, a)) = ix[a] THEN 1 ELSE 0)
NonZero(t) == LET hits == SelectSeq([k \in 1..Len(t.d) |-> k], LAMBDA k : t.d[k] # 0) r == Len(t.s) IN
    [s |-> <<Len(hits), r>>, d |-> FoldLeft(LAMBDA acc, k : acc \o Unrav(k - 1, t.s), <<>>, hits)]
Unique(t) == LET vs == SortedSeq({t.d[k] : k \in 1..Len(t.d)}) IN
    <<Vec(vs), Vec([k \in 1..Len(t.d) |-> Pos(vs, t.d[k]) - 1]),
      Vec([j \in 1..Len(vs) |-> Cardinality({k \in 1..Len(t.d) : t.d[k] = vs[j]})])>>
Hits(c) == SelectSeq([k \in 1..Len(c.d) |-> k - 1], LAMBDA k : c.d[k + 1] # 0)
Compress(t, c, axis) == LET h == TLCEval(Hits(c)) IN
    IF axis = 99 THEN [s |-> <<Len(h)>>, d |-> [j \in 1..Len(h) |-> t.d[h[j] + 1]]]
    ELSE LET a == Ax(axis, Len(t.s)) IN Build(Set1(t.s, a, Len(h)), LAMBDA ix : At(t, [ix EXCEPT ![a] = h[ix[a] + 1]]))
\* joining: the piece that holds position p, and the position within it
RECURSIVE Piece(_, _, _)
Piece(ls, p, i) == IF p < ls[i] THEN <<i, p>> ELSE Piece(ls, p - ls[i], i + 1)
Concat(ts, dim) == LET a == Ax(dim, Len(ts[1].s)) ls == TLCEval([i \in 1..Len(ts) |-> ts[i].s[a]]) IN
    Build(Set1(ts[1].s, a, SumSeq(ls)), LAMBDA ix : LET q == Piece(ls, ix[a], 1) IN At(ts[q[1]], [ix EXCEPT ![a] = q[2]]))
Stack(ts, dim) == LET a == IF dim < 0 THEN dim + Len(ts[1].s) + 2 ELSE dim + 1 IN
    Build(Ins1(ts[1].s, a, Len(ts)), LAMBDA ix : At(ts[ix[a] + 1], Drop1(ix, a)))
Split(t, sizes, dim) == LET a == Ax(dim, Len(t.s)) IN
    [i \in 1..Len(sizes) |-> LET from == SumSeq(SubSeq(sizes, 1, i - 1)) IN
        Build(Set1(t.s, a, sizes[i]), LAMBDA ix : At(t, [ix EXCEPT ![a] = ix[a] + from]))]
ChunkSizes(n, k) == LET c == CeilDiv(n, k) IN
    SelectSeq([i \in 1..k |-> Min2(n, i * c) - Min2(n, (i - 1) * c)], LAMBDA x : x > 0)
\* padding: the source position along one axis of extent n, or -1
Reflect(p, n) == IF n = 1 THEN 0 ELSE LET m == p % (2 * (n - 1)) IN IF m >= n THEN 2 * (n - 1) - m ELSE m
PadPos(mode, p, n) == CASE mode = "constant" -> IF p < 0 \/ p >= n THEN -1 ELSE p
                        [] mode = "reflect" -> Reflect(p, n)
                        [] mode \in {"replicate", "edge"} -> Max2(0, Min2(n - 1, p))
                        [] mode \in {"circular", "wrap"} -> p % n
Pad(t, pad, mode, c) == LET r == Len(t.s) IN
    Build([i \in 1..r |-> t.s[i] + pad[i][1] + pad[i][2]], LAMBDA ix :
        LET q == TLCEval([i \in 1..r |-> PadPos(mode, ix[i] - pad[i][1], t.s[i])]) IN
        IF \E i \in 1..r : q[i] = -1 THEN c ELSE At(t, q))
\* windows over the padded tensor; padding never enters a maximum or a minimum
WinShape(sh, win, st, pad) == [i \in 1..Len(sh) |-> (sh[i] + pad[i][1] + pad[i][2] - win[i]) \div st[i] + 1]
Window(t, win, st, pad, F(_)) == LET r == Len(t.s) n == Prod(win) w == TLCEval(RM(win)) IN
    Build(WinShape(t.s, win, st, pad), LAMBDA ox :
        LET src == TLCEval([k \in 1..n |-> LET wx == UnravW(k - 1, win, w) IN [i \in 1..r |-> ox[i] * st[i] + wx[i] - pad[i][1]]])
            in == SelectSeq(src, LAMBDA q : \A i \in 1..r : q[i] >= 0 /\ q[i] < t.s[i])
        IN F(TLCEval([k \in 1..Len(in) |-> At(t, in[k])])))
WinOf(t, win, st, pad, red) == Window(t, win, st, pad, LAMBDA g :
    CASE red = "sum" -> SumSeq(g) [] red = "mean" -> <<"/", SumSeq(g), Prod(win)>>
      [] red = "max" -> IF g = <<>> THEN 0 ELSE MaxOf(g) [] red = "min" -> IF g = <<>> THEN 0 ELSE MinOf(g))
=============================================================================
