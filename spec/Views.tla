------------------------------- MODULE Views -------------------------------
(* View and shape operations by their definition on coordinates. None = 99. *)
EXTENDS TT

None == 99
ViewOps == {"reshape", "flatten", "squeeze", "unsqueeze", "broadcast", "transpose",
            "permute", "slice", "flip", "repeat", "contiguous"}

\* --- slice: Python semantics, start/end clamped, negative counted from the end
SlStart(st, n, step) == LET a == IF st < 0 THEN st + n ELSE st IN
    IF step > 0 THEN (IF a < 0 THEN 0 ELSE IF a > n THEN n ELSE a)
    ELSE (IF a < -1 THEN -1 ELSE IF a > n-1 THEN n-1 ELSE a)
SlEnd(e, n, step) == IF e = None THEN (IF step > 0 THEN n ELSE -1)
    ELSE LET a == IF e < 0 THEN e + n ELSE e IN
      IF step > 0 THEN (IF a < 0 THEN 0 ELSE IF a > n THEN n ELSE a)
      ELSE (IF a < -1 THEN -1 ELSE IF a > n-1 THEN n-1 ELSE a)
SlLen(st, e, n, step) ==
    LET a == SlStart(st, n, step) b == SlEnd(e, n, step) IN
    IF step > 0 THEN (IF b > a THEN CeilDiv(b - a, step) ELSE 0)
    ELSE (IF a > b THEN CeilDiv(a - b, -step) ELSE 0)
SliceOk(t, p) == SlLen(p.start, p.end, t.s[Ax(p.dim, Rank(t))], p.step) > 0
Slice(t, p) == LET i == Ax(p.dim, Rank(t))
                   n == t.s[i]
                   a == SlStart(p.start, n, p.step)
                   m == SlLen(p.start, p.end, n, p.step)
               IN Build(Set1(t.s, i, m), LAMBDA ix : At(t, Set1(ix, i, a + ix[i] * p.step)))

Transpose(t, a, b) == LET i == Ax(a, Rank(t)) j == Ax(b, Rank(t))
                          sw(q) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
                      IN Build(sw(t.s), LAMBDA ix : At(t, sw(ix)))
Permute(t, ax) == LET r == Rank(t)
                      px == [i \in 1..r |-> Ax(ax[i], r)]
                      inv == [i \in 1..r |-> Pos(px, i)]
                  IN Build([i \in 1..r |-> t.s[px[i]]], LAMBDA ix : At(t, [j \in 1..r |-> ix[inv[j]]]))
Flip(t, dims) == LET D == {Ax(dims[k], Rank(t)) : k \in 1..Len(dims)} IN
    Build(t.s, LAMBDA ix : At(t, [i \in 1..Rank(t) |-> IF i \in D THEN t.s[i] - 1 - ix[i] ELSE ix[i]]))
Repeat(t, n) == Build([i \in 1..Rank(t) |-> t.s[i] * n[i]],
                      LAMBDA ix : At(t, [i \in 1..Rank(t) |-> ix[i] % t.s[i]]))
SqueezeShape(sh, dims) == LET D == {Ax(dims[k], Len(sh)) : k \in 1..Len(dims)}
                              keep == IF dims = <<>> THEN {i \in 1..Len(sh) : sh[i] # 1} ELSE (1..Len(sh)) \ D
                              ks == SetToSortSeq(keep, <)
                          IN [k \in 1..Len(ks) |-> sh[ks[k]]]
UnsqueezeShape(sh, d) == LET r == Len(sh) IN Ins1(sh, (IF d < 0 THEN d + r + 2 ELSE d + 1), 1)

ViewApply(op, t, p) ==
    CASE op = "reshape" -> [s |-> p.shape, d |-> t.d]
      [] op = "flatten" -> [s |-> <<Len(t.d)>>, d |-> t.d]
      [] op = "squeeze" -> [s |-> SqueezeShape(t.s, p.dims), d |-> t.d]
      [] op = "unsqueeze" -> [s |-> UnsqueezeShape(t.s, p.dim), d |-> t.d]
      [] op = "broadcast" -> BroadcastTo(t, p.shape)
      [] op = "transpose" -> Transpose(t, p.a, p.b)
      [] op = "permute" -> Permute(t, p.axes)
      [] op = "slice" -> Slice(t, p)
      [] op = "flip" -> Flip(t, p.dims)
      [] op = "repeat" -> Repeat(t, p.n)
      [] op = "contiguous" -> t

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
DistinctAxes(dims, r) == \A i, j \in 1..Len(dims) : i # j => Ax(dims[i], r) # Ax(dims[j], r)

\* Every valid parameter of op on t (negative axes included), results of at most 48 elements, rank <= MaxRank
MaxRank == 5
ViewParams(op, t) ==
  LET r == Rank(t) sh == t.s IN
  CASE op = "reshape" -> {[shape |-> q] : q \in ShapesOf(Len(t.d), 4)}
    [] op = "flatten" -> {[z |-> 0]}
    [] op = "contiguous" -> {[z |-> 0]}
    [] op = "squeeze" -> {[dims |-> q] : q \in {v \in SeqsUpTo({a \in Axes(r) : sh[Ax(a, r)] = 1}, 2) : DistinctAxes(v, r)}}
    [] op = "unsqueeze" -> IF r >= MaxRank THEN {} ELSE {[dim |-> a] : a \in (-(r+1)) .. r}
    [] op = "broadcast" ->
        LET opts(i) == IF sh[i] = 1 THEN {1, 2, 3} ELSE {sh[i]}
            inner == {q \in [1..r -> UNION {opts(i) : i \in 1..r}] : \A i \in 1..r : q[i] \in opts(i)}
            lead == IF r < MaxRank - 1 THEN {<<>>, <<1>>, <<2>>, <<2, 1>>, <<3>>} ELSE {<<>>}
        IN {[shape |-> q] : q \in {v \in {a \o b : a \in lead, b \in (IF r = 0 THEN {<<>>} ELSE inner)} : Prod(v) <= 48}}
    [] op = "transpose" -> IF r < 2 THEN {} ELSE {[a |-> x, b |-> y] : x \in Axes(r), y \in Axes(r)}
    [] op = "permute" -> {[axes |-> [i \in 1..r |-> IF (i % 2 = 0) = neg THEN p[i] - 1 ELSE p[i] - 1 - r]]
                            : p \in Perms(r), neg \in BOOLEAN}
    [] op = "slice" ->
        UNION {LET n == sh[Ax(a, r)] IN
               {q \in {[dim |-> a, start |-> s0, end |-> e, step |-> st] :
                    s0 \in (-(n+1))..(n+1), e \in ((-(n+1))..(n+1)) \cup {None}, st \in {-3, -2, -1, 1, 2, 3}} :
                 SliceOk(t, q)} : a \in Axes(r)}
    [] op = "flip" -> {[dims |-> q] : q \in {v \in SeqsUpTo(Axes(r), Min2(r, 3)) : DistinctAxes(v, r)}}
    [] op = "repeat" -> {[n |-> q] : q \in {v \in [1..r -> 1..3] : Prod(v) * Len(t.d) <= 48}}

\* the parameters used in simulation: slices are drawn instead of enumerated
ViewRand(op, t) == IF op # "slice" THEN ViewParams(op, t) ELSE IF Rank(t) = 0 THEN {} ELSE
    CHOOSE Q \in { {q \in {[dim |-> a, start |-> RandomElement((-(n+2))..(n+2)),
                            end |-> RandomElement(((-(n+2))..(n+2)) \cup {None}), step |-> st] :
                          st \in {-3, -2, -1, 1, 2, 3}, a \in {x \in Axes(Rank(t)) : t.s[Ax(x, Rank(t))] = n}} :
                       SliceOk(t, q)} : n \in {t.s[Ax(RandomElement(Axes(Rank(t))), Rank(t))]} } : TRUE
===========================================================================
