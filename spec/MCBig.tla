-------------------------------- MODULE MCBig --------------------------------
(* T09. The same operations on operands of any size. A large tensor is given by a tile: its
   element at coordinates ix is the tile's element at ix modulo the tile's shape (plus, for a
   running sum, a drift per repetition). What an operation denotes on tiles is stated here and
   checked against its definition on every request small enough to be written out (Lemma).
   The work is done by T workers that finish in any order; no result depends on T or the order. *)
EXTENDS Algebra, MCMath
CONSTANT MaxWorkers
VARIABLES order, good
Tile(t, sh) == [s |-> t.s, d |-> t.d, big |-> sh, ax |-> 0, dd |-> <<>>]
ModIx(ix, s) == [i \in 1..Len(ix) |-> ix[i] % s[i]]
BgAt(b, ix) == LET jx == ModIx(ix, b.s) v == At(b, jx) IN
    IF b.ax = 0 THEN v ELSE v + (ix[b.ax] \div b.s[b.ax]) * b.dd[Rav(jx, b.s) + 1]
Expand(b) == Build(b.big, LAMBDA ix : BgAt(b, ix))
\* how many of 0 .. n-1 are r modulo p
Cnt(n, p, r) == IF n <= r THEN 0 ELSE (n - r - 1) \div p + 1
\* ---- operands in memory layouts ----
Shift(ix, ax, c) == [ix EXCEPT ![ax] = @ + c]
Views1(leaf, op, p, o) == [leaf |-> leaf, vs |-> <<[op |-> op, p |-> p, o |-> o]>>, t |-> o]
BigOpnd(kind, sh, P, f(_)) == LET r == Len(sh) IN
    CASE kind = "plain" -> (LET l == Tile(LeafOf(P, f), sh) IN [leaf |-> l, vs |-> <<>>, t |-> l])
      [] kind = "off" -> (LET l == Tile(LeafOf(P, f), [sh EXCEPT ![1] = @ + 3]) IN
            Views1(l, "slice", [dim |-> 0, start |-> 3, end |-> None, step |-> 1], Tile(Build(P, LAMBDA ix : BgAt(l, Shift(ix, 1, 3))), sh)))
      [] kind = "step" -> (LET l == Tile(LeafOf(P, f), [sh EXCEPT ![r] = 2 * @]) IN
            Views1(l, "slice", [dim |-> -1, start |-> 1, end |-> None, step |-> 2], Tile(Build(P, LAMBDA ix : BgAt(l, [ix EXCEPT ![r] = 2 * @ + 1])), sh)))
      [] kind = "trans" -> (LET l == Tile(LeafOf(SwapEnds(P), f), SwapEnds(sh)) IN
            Views1(l, "transpose", [a |-> 0, b |-> -1], Tile(Transpose([s |-> l.s, d |-> l.d], 0, -1), sh)))
      [] kind = "bc" -> (LET l == Tile(LeafOf([P EXCEPT ![1] = 1], f), [sh EXCEPT ![1] = 1]) IN
            Views1(l, "broadcast", [shape |-> sh], Tile([s |-> l.s, d |-> l.d], sh)))
BigKinds(sh) == {"plain", "off", "step", "bc"} \cup (IF Len(sh) > 1 THEN {"trans"} ELSE {})
\* ---- requests ----
Sizes1 == {<<5>>, <<12>>, <<17>>, <<64>>, <<1001>>, <<199999>>, <<200000>>, <<200001>>, <<250007>>, <<300002>>, <<400003>>}
Sizes2 == {<<3, 4>>, <<4, 7>>, <<450, 451>>, <<3, 70001>>, <<70001, 3>>, <<2, 4, 3>>, <<2, 351, 301>>}
TileOf(sh) == <<<<7>>, <<3, 5>>, <<2, 3, 5>>>>[Len(sh)]
Rq(m, op, sh, kinds, s, p) == [m |-> m, op |-> op, sh |-> sh, kinds |-> kinds, s |-> s, p |-> p]
One(S) == {RandomElement(S)}
EwReqs == {Rq("un", op, <<sh>>, <<k>>, s, NoP) : op \in UnOps \ {"bitwise_not"}, sh \in Sizes1 \cup Sizes2, k \in {"plain", "off", "step", "bc"}, s \in Streams}
     \cup {Rq("fun", op, <<sh>>, <<k>>, s, NoP) : op \in Funs, sh \in Sizes1 \cup Sizes2, k \in {"plain", "off", "step", "bc"}, s \in Streams}
     \cup UNION {{Rq("sc", op, <<sh>>, <<k>>, s, [c |-> c]) : sh \in Sizes1 \cup Sizes2, k \in {"plain", "off"}, s \in Streams, c \in ScParams(op)} : op \in ScOps}
     \cup {Rq("copy", op, <<sh>>, <<k>>, s, NoP) : op \in {"contiguous", "clamp", "to_dtype"}, sh \in Sizes1 \cup Sizes2, k \in {"plain", "off", "step", "bc"}, s \in Streams}
     \cup {Rq("shift", op, <<sh>>, <<k>>, s, [k |-> c]) : op \in {"shl_scalar", "shr_scalar"}, sh \in Sizes1 \cup Sizes2, k \in {"plain", "off"}, s \in Streams, c \in 1..3}
Second(sh) == {sh} \cup {LastN(sh, 1)} \cup {[sh EXCEPT ![1] = 1]}
BinReqsB == UNION {{Rq("bin", op, <<sh, sh2>>, <<ka, kb>>, s, NoP) : op \in BinOps, ka \in {"plain", "off", "step"}, kb \in {"plain", "off"}, s \in Streams, sh2 \in Second(sh)} : sh \in Sizes1 \cup Sizes2}
     \cup {Rq("sel", "where3", <<sh, sh, sh>>, <<ka, kb, "plain">>, s, NoP) : ka \in {"plain", "off"}, kb \in {"plain", "step"}, s \in Streams, sh \in Sizes1 \cup Sizes2}
RedReqs == UNION {{Rq("red", op, <<sh>>, <<k>>, s, [dims |-> <<d>>, keep |-> kp]) : op \in IntOps \cup {"mean"}, k \in {"plain", "off", "bc"}, s \in Streams, d \in 0..(Len(sh) - 1), kp \in BOOLEAN} : sh \in Sizes1 \cup Sizes2}
     \cup {Rq("red", op, <<sh>>, <<k>>, s, [dims |-> <<>>, keep |-> kp]) : op \in (IntOps \ {"argmax", "argmin"}) \cup {"mean"}, sh \in Sizes1 \cup Sizes2, k \in {"plain", "off", "trans"}, s \in Streams, kp \in BOOLEAN}
     \cup UNION {{Rq("scan", "cumsum", <<sh>>, <<k>>, s, [dim |-> d]) : k \in {"plain", "off"}, s \in Streams, d \in 0..(Len(sh) - 1)} : sh \in Sizes1 \cup Sizes2}
Ms == {1, 4, 31, 33, 127, 255, 256, 257, 300, 511, 512, 515, 640, 1030}
MmReqs == {Rq("mm", op, <<<<m, k>>, <<k, n>>>>, <<ka, kb>>, s, NoP) : op \in {"matmul", "dot"}, m \in Ms, k \in {1, 4, 6, 255, 257, 300}, n \in {1, 3, 4, 33, 66}, ka \in {"plain", "off", "trans"}, kb \in {"plain", "off", "trans"}, s \in Streams}
     \cup {Rq("mm", "matmul", <<<<2, m, k>>, <<2, k, n>>>>, <<ka, "plain">>, s, NoP) : m \in {3, 256, 300}, k \in {4, 70}, n \in {2, 40}, ka \in {"plain", "off"}, s \in Streams}
     \cup {Rq("mm", op, <<<<4300, 3>>, <<3, 2>>>>, <<"plain", "plain">>, s, NoP) : op \in {"matmul", "dot"}, s \in Streams}
ConvReqsB == {Rq("conv", "conv2d", <<<<b, c, h, h + 1>>, <<o, c, k, 2>>>>, <<"plain", "plain">>, s, [stride |-> st, pad |-> 0, dil |-> dl]) :
                 b \in {1, 2}, c \in {2, 3, 40}, h \in {5, 20}, o \in {3, 17}, k \in {1, 3}, st \in 1..2, dl \in 1..2, s \in Streams}
     \cup {Rq("conv", "conv1d", <<<<b, c, h>>, <<o, c, k>>>>, <<"plain", "plain">>, s, [stride |-> st, pad |-> 0, dil |-> 1]) :
                 b \in {1, 2}, c \in {3, 40}, h \in {7, 3000}, o \in {3, 20}, k \in {1, 3}, st \in 1..2, s \in Streams}
\* the work that is shared between workers
Big(S) == {sh \in S : Prod(sh) >= 200000}
ParReqs == UNION {{Rq("bin", op, <<sh, sh>>, <<ka, kb>>, s, NoP) : op \in {"add", "sub", "mul", "maximum", "minimum", "bitwise_and", "bitwise_or", "bitwise_xor"},
                        ka \in {"plain", "off"}, kb \in {"plain", "off"}, s \in Streams} : sh \in Big(Sizes1 \cup Sizes2)}
        \cup {Rq("copy", "to_dtype", <<sh>>, <<k>>, s, NoP) : sh \in Big(Sizes1 \cup Sizes2), k \in {"plain", "off"}, s \in Streams}
        \cup {Rq("un", op, <<sh>>, <<k>>, s, NoP) : op \in {"neg", "abs", "square", "sign", "relu"} \cap UnOps, sh \in Big(Sizes1 \cup Sizes2), k \in {"plain", "off"}, s \in Streams}
MmPar == {Rq("mm", op, <<<<m, k>>, <<k, n>>>>, <<"plain", "plain">>, s, NoP) : op \in {"matmul", "dot"}, m \in {512, 513, 515, 767, 1030, 1054, 1300}, k \in {3, 6}, n \in {2, 5}, s \in Streams}
BReqs == CASE Mode = "par" -> ParReqs [] Mode = "mpar" -> MmPar [] Mode = "ew" -> EwReqs [] Mode = "bin" -> BinReqsB [] Mode = "red" -> RedReqs [] Mode = "mm" -> {q \in MmReqs : q.sh[1][Len(q.sh[1]) - 1] * q.sh[1][Len(q.sh[1])] * q.sh[2][Len(q.sh[2])] <= 4000000}
           [] Mode = "conv" -> {q \in ConvReqsB : q.sh[2][3] <= 3}
\* ---- operands ----
RedVal(op, s, k) == LET h == Hash(s, k, 1000) IN
    CASE op = "prod" -> IF h % 2 = 0 THEN 1 ELSE -1
      [] op \in {"any", "all"} -> IF s % 3 = 0 THEN 0 ELSE IF s % 3 = 1 THEN 1 ELSE (IF h % 5 = 0 THEN 1 ELSE 0)
      [] OTHER -> (h % 9) - 4
TilesOf(q) == CASE q.m = "mm" -> (IF Len(q.sh[1]) = 3 THEN <<<<2, 3, 5>>, <<2, 5, 4>>>> ELSE <<<<3, 5>>, <<5, 4>>>>)
                [] q.m = "conv" -> <<<<1, 3>> \o [i \in 1..(Len(q.sh[1]) - 2) |-> <<3, 5>>[i]], <<2, 3>> \o LastN(q.sh[2], Len(q.sh[2]) - 2)>>
                [] OTHER -> [i \in 1..Len(q.sh) |-> LET P == LastN(TileOf(q.sh[1]), Len(q.sh[i])) IN [j \in 1..Len(P) |-> IF q.sh[i][j] = 1 THEN 1 ELSE P[j]]]
ValB(q, i, k) == CASE q.m \in {"red", "scan"} -> RedVal(q.op, q.s, k) [] q.m = "fun" -> Point(q.op, q.s, k)
                   [] q.m \in {"mm", "conv"} -> Hash(q.s + 50 * i, k, 5) - 2 [] q.m = "sel" /\ i = 2 -> Hash(q.s, k, 2)
                   [] OTHER -> Draw(q.op, i, q.s, k)
OpdsB(q) == [i \in 1..Len(q.sh) |-> BigOpnd(q.kinds[i], q.sh[i], TilesOf(q)[i], LAMBDA k : ValB(q, i, k))]
\* ---- what the operations denote on tiles ----
MapB(b, F(_)) == Tile(Map([s |-> b.s, d |-> b.d], F), b.big)
ZipBig(a, b, F(_, _)) == Tile(ZipT([s |-> a.s, d |-> a.d], [s |-> b.s, d |-> b.d], F), BShape(a.big, b.big))
CntOf(b, A, ix) == Prod([i \in 1..Len(b.s) |-> IF i \in A THEN Cnt(b.big[i], b.s[i], ix[i]) ELSE 1])
RedB(b, op, dims, keep) == LET r == Len(b.s) A == TLCEval(AxSet(dims, r)) R == TLCEval(SortedSeq(A)) K == TLCEval(SortedSeq((1..r) \ A))
                               rs == TLCEval(Sub1(b.s, R)) n == Prod(Sub1(b.big, R))
                               Grp(o) == TLCEval([j \in 1..Prod(rs) |-> LET ix == Merge(r, K, R, o, Unrav(j - 1, rs)) IN [v |-> At(b, ix), c |-> CntOf(b, A, ix)]])
                               Val(g) == LET live == TLCEval(SelectSeq(g, LAMBDA e : e.c > 0)) IN
                                   CASE op = "sum" -> SumSeq([j \in 1..Len(g) |-> g[j].v * g[j].c])
                                     [] op = "mean" -> <<"/", SumSeq([j \in 1..Len(g) |-> g[j].v * g[j].c]), n>>
                                     [] op = "l1_norm" -> SumSeq([j \in 1..Len(g) |-> Abs(g[j].v) * g[j].c])
                                     [] op = "prod" -> Prod([j \in 1..Len(g) |-> IF g[j].c % 2 = 0 THEN 1 ELSE g[j].v])
                                     [] OTHER -> IntRed(op, [j \in 1..Len(live) |-> live[j].v])
                               out == TLCEval(Build(Sub1(b.s, K), LAMBDA o : Val(Grp(o))))
                           IN IF keep THEN Tile([s |-> [i \in 1..r |-> IF i \in A THEN 1 ELSE b.s[i]], d |-> out.d], [i \in 1..r |-> IF i \in A THEN 1 ELSE b.big[i]])
                              ELSE Tile(out, Sub1(b.big, K))
ScanB(b, dim) == LET a == dim + 1 t == [s |-> b.s, d |-> b.d] IN
    [s |-> b.s, d |-> CumSum(t, dim).d, big |-> b.big, ax |-> a, dd |-> Build(b.s, LAMBDA ix : SumSeq(Line(t, ix, a))).d]
MmB(a, b) == LET r == Len(a.s) k == a.s[r] IN
    Tile(Build(SubSeq(a.s, 1, r - 1) \o <<b.s[r]>>, LAMBDA ix : SumSeq([j \in 1..k |-> Cnt(a.big[r], k, j - 1) * At(a, [ix EXCEPT ![r] = j - 1]) * At(b, [ix EXCEPT ![r - 1] = j - 1])])),
         SubSeq(a.big, 1, r - 1) \o <<b.big[r]>>)
ConvB(x, w, p) == LET r == Len(x.s) - 2 ks == Spat(w.s) nk == Prod(ks) nc == x.s[2] IN
    Tile(Build(<<1, w.s[1]>> \o Spat(x.s), LAMBDA ix : SumSeq([m \in 1..(nc * nk) |->
            LET c == (m - 1) \div nk kx == Unrav((m - 1) % nk, ks) IN
            Cnt(x.big[2], nc, c) * BgAt(x, <<0, c>> \o [i \in 1..r |-> ix[i + 2] * p.stride + kx[i] * p.dil]) * At(w, <<ix[2], c>> \o kx)])),
         <<x.big[1], w.big[1]>> \o [i \in 1..r |-> ConvOut(Spat(x.big)[i], ks[i], p.stride, 0, p.dil)])
Max2S(a, lo, hi) == Min2(Max2(a, lo), hi)
UnF(q, a) == CASE q.m = "un" -> Un(q.op, a) [] q.m = "fun" -> Def(q.op, a) [] q.m = "sc" -> Sc(q.op, a, q.p.c) [] q.op = "clamp" -> Max2S(a, -2, 3)
               [] q.m = "shift" -> Bin(IF q.op = "shl_scalar" THEN "shl" ELSE "shr", a, q.p.k) [] OTHER -> a
ResB(q, o) ==
    CASE q.m = "bin" -> ZipBig(o[1].t, o[2].t, LAMBDA a, b : Bin(q.op, a, b))
      [] q.m = "sel" -> (LET x == ZipBig(o[1].t, o[2].t, LAMBDA a, c : <<a, c>>) IN ZipBig(x, o[3].t, LAMBDA u, b : IF u[2] = 1 THEN u[1] ELSE b))
      [] q.m = "red" -> RedB(o[1].t, q.op, q.p.dims, q.p.keep)
      [] q.m = "scan" -> ScanB(o[1].t, q.p.dim)
      [] q.m = "mm" -> MmB(o[1].t, o[2].t)
      [] q.m = "conv" -> ConvB(o[1].t, o[2].t, q.p)
      [] OTHER -> MapB(o[1].t, LAMBDA a : UnF(q, a))
\* the definitions, on tensors written out
Direct(q, e) ==
    CASE q.m = "bin" -> ZipT(e[1], e[2], LAMBDA a, b : Bin(q.op, a, b))
      [] q.m = "sel" -> Build(e[1].s, LAMBDA ix : IF At(e[2], ix) = 1 THEN At(e[1], ix) ELSE At(e[3], ix))
      [] q.m = "red" -> Red(e[1], q.p.dims, q.p.keep, LAMBDA g : IF q.op = "mean" THEN <<"/", SumSeq(g), Len(g)>> ELSE IntRed(q.op, g))
      [] q.m = "scan" -> CumSum(e[1], q.p.dim)
      [] q.m = "mm" -> MatMul(e[1], e[2])
      [] q.m = "conv" -> Conv(e[1], e[2], q.p.stride, 0, q.p.dil)
      [] OTHER -> Map(e[1], LAMBDA a : UnF(q, a))
Written(q) == \A i \in 1..Len(q.sh) : Prod(q.sh[i]) <= 160
\* a view is the view of the tensor written out
ViewsOk(o) == \A i \in 1..Len(o) : o[i].vs = <<>> \/ Expand(o[i].t) = ViewApply(o[i].vs[1].op, Expand(o[i].leaf), o[i].vs[1].p)
\* ---- behaviours ----
BTag(x, tag) == [t |-> tag] @@ x
RECURSIVE StepsB(_, _, _, _)
StepsB(os, tags, k, base) == IF k > Len(os) THEN [steps |-> <<>>, at |-> <<>>]
    ELSE LET o == os[k] m == Len(o.vs) rest == StepsB(os, tags, k + 1, base + m) IN
         [steps |-> [j \in 1..m |-> [op |-> o.vs[j].op, p |-> o.vs[j].p, in |-> <<k - 1>>, outs |-> <<BTag(o.vs[j].o, tags[k])>>]] \o rest.steps,
          at |-> <<IF m = 0 THEN k - 1 ELSE base + m - 1>> \o rest.at]
TagB(q) == CASE q.op \in BoolRes \cup BoolFuns -> "b" [] q.op \in {"argmax", "argmin"} -> "i" [] q.op \in {"any", "all"} -> "b" [] q.op = "to_dtype" -> "f32" [] OTHER -> "n"
DtsB(q) == CASE Mode = "par" /\ q.m = "bin" -> (IF q.op \in {"bitwise_and", "bitwise_or", "bitwise_xor"} THEN "i32,i64,i16" ELSE "i32,i64,i16,f32,f64")
             [] Mode = "par" /\ q.m = "copy" -> "i32,f64,i64,i8" [] q.m = "fun" -> "f32,f64,f16,bf16" [] q.op \in {"any", "all"} -> "f32,i32,f64,u8" [] q.op \in {"mean"} -> "f32,f64" [] q.m = "red" /\ q.op \in {"sum", "l1_norm"} -> "f32,f64,i32,i64"
             [] q.m \in {"scan", "mm"} -> "f32,f64,i32,i64" [] q.m = "conv" -> "f32,f64" [] q.m \in {"red", "sel", "copy"} -> "f32,i32,f64,i64,f16,i8,bf16" [] OTHER -> DtsOf(q.op)
PrmB(q) == CASE q.op = "clamp" -> [lo |-> -2, hi |-> 3] [] q.op = "to_dtype" -> [dt |-> "f32"] [] OTHER -> q.p
CaseB(q, o, r, w) == LET tags == [i \in 1..Len(o) |-> IF q.m = "sel" /\ i = 2 THEN "b" ELSE "n"] st == StepsB(o, tags, 1, Len(o)) IN
    [leaves |-> [i \in 1..Len(o) |-> BTag(o[i].leaf, tags[i])], steps |-> Append(st.steps, [op |-> q.op, p |-> PrmB(q), in |-> st.at, outs |-> <<BTag(r, TagB(q))>>]),
     dts |-> DtsB(q), order |-> w] @@ (IF q.m = "fun" THEN Tols(q) ELSE [tol |-> IF q.op \in {"pow", "pow_scalar", "rem", "rem_scalar", "mean"} THEN 2 ELSE 0])
BInit == req \in {q \in BReqs : \A i \in 1..Len(q.sh) : q.kinds[i] \in BigKinds(q.sh[i])} /\ res = 0 /\ todo \in (IF Mode \in {"par", "mpar"} THEN 2 ELSE 1)..MaxWorkers /\ order = <<>> /\ good = TRUE
\* worker w is the next to finish its share
Finish(w) == /\ w \in 1..todo /\ \A i \in 1..Len(order) : order[i] # w
             /\ order' = Append(order, w)
             /\ UNCHANGED <<req, res, todo, good>>
Emit == /\ Len(order) = todo /\ res = 0
        /\ LET o == TLCEval(OpdsB(req)) r == TLCEval(ResB(req, o)) IN
           /\ Export(CaseB(req, o, r, order))
           /\ good' = (~Written(req) \/ (ViewsOk(o) /\ Expand(r) = Direct(req, [i \in 1..Len(o) |-> Expand(o[i].t)])))
        /\ res' = 1
        /\ UNCHANGED <<req, todo, order>>
BNext == (\E w \in 1..MaxWorkers : Finish(w)) \/ Emit
BSpec == BInit /\ [][BNext]_<<vars, todo, order, good>>
Lemma == good
=============================================================================
