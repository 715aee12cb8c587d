------------------------------ MODULE Algebra -------------------------------
(* Matrix products, einsum, convolutions and their weight gradients, resizing, and
   determinant / inverse / trace / solve, written as their textbook sums. *)
EXTENDS Index
CONSTANT SYM      \* TRUE: elements are terms, FALSE: integers
Tm(a, b) == IF SYM THEN <<"*", a, b>> ELSE a * b
SumOver(n, F(_)) == IF SYM THEN <<"sum">> \o [k \in 1..n |-> F(k - 1)] ELSE FoldLeft(LAMBDA acc, k : acc + F(k), 0, [k \in 1..n |-> k - 1])
SubQ(q, n) == SubSeq(q, 1, n)
LastN(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
\* product of the last two axes, the others broadcast
MatMulN(a, b) == LET ra == Len(a.s) rb == Len(b.s) bs == TLCEval(BShape(SubQ(a.s, ra - 2), SubQ(b.s, rb - 2)))
                     K == a.s[ra] nb == Len(bs) IN
    Build(bs \o <<a.s[ra - 1], b.s[rb]>>, LAMBDA ix :
        LET ia == BIdx(SubQ(ix, nb), SubQ(a.s, ra - 2)) ib == BIdx(SubQ(ix, nb), SubQ(b.s, rb - 2)) IN
        SumOver(K, LAMBDA k : Tm(At(a, ia \o <<ix[nb + 1], k>>), At(b, ib \o <<k, ix[nb + 2]>>))))
\* a vector on the left is a row, on the right a column
MatMul(a, b) == LET A == IF Len(a.s) = 1 THEN [s |-> <<1>> \o a.s, d |-> a.d] ELSE a
                    B == IF Len(b.s) = 1 THEN [s |-> b.s \o <<1>>, d |-> b.d] ELSE b
                    C == MatMulN(A, B)
                    s1 == IF Len(b.s) = 1 THEN SubQ(C.s, Len(C.s) - 1) ELSE C.s
                    s2 == IF Len(a.s) = 1 THEN Drop1(s1, IF Len(b.s) = 1 THEN Len(s1) ELSE Len(s1) - 1) ELSE s1
                IN [s |-> s2, d |-> C.d]
\* einsum: ins = one label sequence per operand
Labels(ins) == UNION {{ins[i][j] : j \in 1..Len(ins[i])} : i \in 1..Len(ins)}
LabelSeq(ins) == LET alls == FoldLeft(LAMBDA acc, q : acc \o q, <<>>, ins) IN
    FoldLeft(LAMBDA acc, l : IF \E i \in 1..Len(acc) : acc[i] = l THEN acc ELSE Append(acc, l), <<>>, alls)
Extent(l, ins, ts) == LET i == CHOOSE i \in 1..Len(ins) : \E j \in 1..Len(ins[i]) : ins[i][j] = l IN
    ts[i].s[CHOOSE j \in 1..Len(ins[i]) : ins[i][j] = l]
ProdTo(n, F(_)) == IF SYM THEN <<"prod">> \o [k \in 1..n |-> F(k)] ELSE FoldLeft(LAMBDA acc, k : acc * F(k), 1, [k \in 1..n |-> k])
Einsum(ins, out, ts) ==
    LET ls == TLCEval(LabelSeq(ins))
        con == TLCEval(SelectSeq(ls, LAMBDA l : \A i \in 1..Len(out) : out[i] # l))
        cs == TLCEval([i \in 1..Len(con) |-> Extent(con[i], ins, ts)])
        os == TLCEval([i \in 1..Len(out) |-> Extent(out[i], ins, ts)])
        n == Prod(cs)
        Val(l, ix, cx) == IF \E i \in 1..Len(out) : out[i] = l THEN ix[Pos(out, l)] ELSE cx[Pos(con, l)]
    IN Build(os, LAMBDA ix : SumOver(n, LAMBDA m : LET cx == TLCEval(Unrav(m, cs)) IN
          ProdTo(Len(ins), LAMBDA i : At(ts[i], [j \in 1..Len(ins[i]) |-> Val(ins[i][j], ix, cx)]))))
EqStr(ins, out, implicit) == LET J(q) == FoldLeft(LAMBDA acc, l : acc \o l, "", q)
                                 lhs == FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE ",") \o J(ins[i]), "", [i \in 1..Len(ins) |-> i])
                             IN IF implicit THEN lhs ELSE lhs \o "->" \o J(out)
\* convolutions over all trailing axes; w = [out, in, kernel...], transposed w = [in, out, kernel...]
ConvOut(n, k, s, p, d) == (n + 2 * p - d * (k - 1) - 1) \div s + 1
ConvTOut(n, k, s, p, op, d) == (n - 1) * s - 2 * p + d * (k - 1) + op + 1
Spat(sh) == SubSeq(sh, 3, Len(sh))
Inside(q, sh) == \A i \in 1..Len(q) : q[i] >= 0 /\ q[i] < sh[i]
Conv(x, w, s, p, d) ==
    LET r == Len(x.s) - 2 ks == TLCEval(Spat(w.s)) xs == TLCEval(Spat(x.s)) nk == Prod(ks) wk == TLCEval(RM(ks))
        os == TLCEval([i \in 1..r |-> ConvOut(xs[i], ks[i], s, p, d)])
    IN Build(<<x.s[1], w.s[1]>> \o os, LAMBDA ix :
        SumOver(nk, LAMBDA m : LET kx == UnravW(m, ks, wk) q == TLCEval([i \in 1..r |-> ix[i + 2] * s + kx[i] * d - p]) IN
            IF ~Inside(q, xs) THEN 0
            ELSE SumOver(x.s[2], LAMBDA c : Tm(At(x, <<ix[1], c>> \o q), At(w, <<ix[2], c>> \o kx)))))
\* the adjoint placement: every input element spreads its kernel
ConvT(x, w, s, p, op, d) ==
    LET r == Len(x.s) - 2 ks == TLCEval(Spat(w.s)) xs == TLCEval(Spat(x.s)) nk == Prod(ks) wk == TLCEval(RM(ks))
        os == TLCEval([i \in 1..r |-> ConvTOut(xs[i], ks[i], s, p, op, d)])
    IN Build(<<x.s[1], w.s[2]>> \o os, LAMBDA ix :
        SumOver(nk, LAMBDA m : LET kx == UnravW(m, ks, wk) q == TLCEval([i \in 1..r |-> ix[i + 2] + p - kx[i] * d]) IN
            IF \E i \in 1..r : q[i] < 0 \/ q[i] % s # 0 \/ q[i] \div s >= xs[i] THEN 0
            ELSE SumOver(x.s[2], LAMBDA c : Tm(At(x, <<ix[1], c>> \o [i \in 1..r |-> q[i] \div s]), At(w, <<c, ix[2]>> \o kx)))))
\* d/dw of <g, Conv(x, w)> and of <g, ConvT(x, w)>
ConvGW(x, g, wsh, s, p, d) ==
    LET r == Len(x.s) - 2 gs == TLCEval(Spat(g.s)) xs == TLCEval(Spat(x.s)) ng == Prod(gs) wg == TLCEval(RM(gs)) IN
    Build(wsh, LAMBDA ix : SumOver(ng, LAMBDA m : LET gx == UnravW(m, gs, wg) q == TLCEval([i \in 1..r |-> gx[i] * s + ix[i + 2] * d - p]) IN
        IF ~Inside(q, xs) THEN 0 ELSE SumOver(x.s[1], LAMBDA b : Tm(At(x, <<b, ix[2]>> \o q), At(g, <<b, ix[1]>> \o gx)))))
ConvTGW(x, g, wsh, s, p, d) ==
    LET r == Len(x.s) - 2 gs == TLCEval(Spat(g.s)) xs == TLCEval(Spat(x.s)) nx == Prod(xs) wx == TLCEval(RM(xs)) IN
    Build(wsh, LAMBDA ix : SumOver(nx, LAMBDA m : LET px == UnravW(m, xs, wx) q == TLCEval([i \in 1..r |-> px[i] * s + ix[i + 2] * d - p]) IN
        IF ~Inside(q, gs) THEN 0 ELSE SumOver(x.s[1], LAMBDA b : Tm(At(x, <<b, ix[1]>> \o px), At(g, <<b, ix[2]>> \o q)))))
Dot(a, b) == SumOver(Len(a.d), LAMBDA k : a.d[k + 1] * b.d[k + 1])
\* determinant by expansion along the first row (m: function on rows x cols, 1-based)
RECURSIVE DetM(_, _)
MinorM(m, n, i, j) == [r \in 1..(n-1) |-> [c \in 1..(n-1) |-> m[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
DetM(m, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN m[1][1]
              ELSE FoldLeft(LAMBDA acc, j : IF m[1][j] = 0 THEN acc ELSE acc + (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * DetM(TLCEval(MinorM(m, n, 1, j)), n - 1),
                            0, [j \in 1..n |-> j])
MatAt(t, bx) == LET r == Len(t.s) n == t.s[r] IN TLCEval([i \in 1..n |-> [j \in 1..n |-> At(t, bx \o <<i - 1, j - 1>>)]])
Cof(m, n, i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * DetM(TLCEval(MinorM(m, n, i, j)), n - 1)
Batch(t) == SubQ(t.s, Len(t.s) - 2)
Det(t) == LET n == t.s[Len(t.s)] u == Build(Batch(t), LAMBDA bx : DetM(MatAt(t, bx), n)) IN IF Len(t.s) = 2 THEN [s |-> <<1>>, d |-> u.d] ELSE u
Trace(t) == LET n == t.s[Len(t.s)] u == Build(Batch(t), LAMBDA bx : SumOver(n, LAMBDA i : At(t, bx \o <<i, i>>))) IN IF Len(t.s) = 2 THEN [s |-> <<1>>, d |-> u.d] ELSE u
Ratio(a, b) == IF a % b = 0 THEN a \div b ELSE <<"/", a, b>>
RatioS(a, b) == IF b < 0 THEN Ratio(-a, -b) ELSE Ratio(a, b)
Inv(t) == LET n == t.s[Len(t.s)] nb == Len(t.s) - 2 IN
    Build(t.s, LAMBDA ix : LET m == MatAt(t, SubQ(ix, nb)) IN RatioS(Cof(m, n, ix[nb + 2] + 1, ix[nb + 1] + 1), DetM(m, n)))
\* a x = b by Cramer: x = adj(a) b / det(a); b a vector or a (batch of) matrix
Solve(a, b) == LET n == a.s[Len(a.s)]
                   adj == Build(a.s, LAMBDA ix : LET nb == Len(a.s) - 2 IN Cof(MatAt(a, SubQ(ix, nb)), n, ix[nb + 2] + 1, ix[nb + 1] + 1))
                   y == MatMul(adj, b) nb == Len(Batch(a))
               IN Build(y.s, LAMBDA ix : RatioS(At(y, ix), DetM(MatAt(a, BIdx(SubQ(ix, Len(y.s) - (IF Len(b.s) = 1 THEN 1 ELSE 2)), Batch(a))), n)))
\* resizing: the source coordinate of output position o is the rational Num / Den
CoordNum(o, ni, no, ct) == CASE ni = no -> o
                             [] ct = "half_pixel" -> (2 * o + 1) * ni - no
                             [] ct = "pytorch_half_pixel" -> IF no = 1 THEN 0 ELSE (2 * o + 1) * ni - no
                             [] ct = "asymmetric" -> o * ni
                             [] ct = "align_corners" -> IF no = 1 THEN 0 ELSE o * (ni - 1)
CoordDen(ni, no, ct) == CASE ni = no -> 1
                          [] ct \in {"half_pixel", "pytorch_half_pixel"} -> 2 * no
                          [] ct = "asymmetric" -> no
                          [] ct = "align_corners" -> IF no = 1 THEN 1 ELSE no - 1
FloorQ(a, b) == a \div b          \* TLA+ division rounds down
CeilQ(a, b) == -((-a) \div b)
Near(a, b, md) == CASE md = "floor" -> FloorQ(a, b) [] md = "ceil" -> CeilQ(a, b)
                    [] md = "round_prefer_floor" -> CeilQ(2 * a - b, 2 * b) [] md = "round_prefer_ceil" -> FloorQ(2 * a + b, 2 * b)
Clip(i, n) == Max2(0, Min2(n - 1, i))
ResizeNearest(t, os, ct, md) == LET r == Len(t.s) - 2 IN
    Build(SubQ(t.s, 2) \o os, LAMBDA ix : At(t, SubQ(ix, 2) \o [i \in 1..r |->
        Clip(Near(CoordNum(ix[i + 2], t.s[i + 2], os[i], ct), CoordDen(t.s[i + 2], os[i], ct), md), t.s[i + 2])]))
\* multilinear: every corner weighted by its distance, corners clipped to the tensor
Frac(a, b) == a - b * (a \div b)
ResizeLinear(t, os, ct) == LET r == Len(t.s) - 2 den == TLCEval([i \in 1..r |-> CoordDen(t.s[i + 2], os[i], ct)]) D == Prod(den) IN
    Build(SubQ(t.s, 2) \o os, LAMBDA ix :
        LET num == TLCEval([i \in 1..r |-> CoordNum(ix[i + 2], t.s[i + 2], os[i], ct)])
            corners == [1..r -> {0, 1}]
            W(c) == FoldLeft(LAMBDA acc, i : acc * (IF c[i] = 1 THEN Frac(num[i], den[i]) ELSE den[i] - Frac(num[i], den[i])), 1, [i \in 1..r |-> i])
            V(c) == At(t, SubQ(ix, 2) \o [i \in 1..r |-> Clip(FloorQ(num[i], den[i]) + c[i], t.s[i + 2])])
        cq == SetToSeq(corners) total == SumOver(Len(cq), LAMBDA j : Tm(W(cq[j + 1]), V(cq[j + 1])))
        IN IF SYM THEN <<"/", total, D>> ELSE RatioS(total, D))
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256}
=============================================================================
