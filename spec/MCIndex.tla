------------------------------ MODULE MCIndex -------------------------------
(* T05. A session indexes, joins, splits, pads or slides a window over operands in
   chosen layouts. *)
EXTENDS Index
CONSTANTS Shapes, Mode, Streams
ShapesQuick == {<<4>>, <<3, 4>>, <<2, 1, 3>>, <<3, 2, 2>>}
ShapesMore == ShapesQuick \cup {<<1>>, <<7>>, <<5, 2>>, <<1, 6>>, <<2, 3, 4>>, <<2, 2, 1, 3>>}
VARIABLES req, res
vars == <<req, res>>
Shs == Shapes
AxesOf(sh) == Axes(Len(sh))
KS(sh) == KindsFor(sh)
\* the layout of a secondary operand is drawn, not enumerated
PickKind(sh, h) == LET q == SetToSeq(DressedKinds(sh)) IN q[1 + (h % Len(q))]
SelReqs == UNION {UNION {{[m |-> op, op |-> op, sh |-> sh, kind |-> k, dim |-> d, n |-> n, s |-> s, neg |-> ng] :
              op \in {"index_select", "index_put", "gather", "scatter", "scatter_add", "scatter_max", "scatter_min"},
              k \in KS(sh), n \in {1, 3, sh[Ax(d, Len(sh))]}, s \in Streams, ng \in BOOLEAN} : d \in AxesOf(sh)} : sh \in Shs}
HotReqs == UNION {{[m |-> "onehot", op |-> "onehot", sh |-> sh, kind |-> k, dim |-> d, n |-> n, s |-> s] :
              k \in DressedKinds(sh), n \in {4, 7}, s \in Streams, d \in Axes(Len(sh) + 1)} : sh \in Shs \cup {<<>>}}
FindReqs == UNION {{[m |-> op, op |-> op, sh |-> sh, kind |-> k, s |-> s] : op \in {"nonzero", "unique"}, k \in KS(sh), s \in Streams} : sh \in Shs \cup {<<>>}}
CompReqs == UNION {{[m |-> "compress", op |-> "compress", sh |-> sh, kind |-> k, dim |-> d, s |-> s] : k \in KS(sh), s \in Streams, d \in AxesOf(sh) \cup {99}} : sh \in Shs}
JoinReqs == UNION {UNION {{[m |-> "concat", op |-> op, sh |-> sh, kind |-> k, dim |-> d, n |-> n, s |-> s] :
               op \in {"concat", "cat"}, k \in KS(sh), n \in 1..3, s \in Streams} : d \in AxesOf(sh)} : sh \in Shs}
       \cup UNION {UNION {{[m |-> "stack", op |-> "stack", sh |-> sh, kind |-> k, dim |-> d, n |-> n, s |-> s] :
               k \in KS(sh), n \in 1..3, s \in Streams} : d \in Axes(Len(sh) + 1)} : sh \in Shs \cup {<<>>}}
SizesFor(n) == {<<n>>} \cup {<<i, n - i>> : i \in 1..(n-1)} \cup (IF n >= 4 THEN {<<1, n - 3, 2>>, <<1, 1, 1, n - 3>>} ELSE {})
CutReqs == UNION {UNION {{[m |-> "split", op |-> "split", sh |-> sh, kind |-> k, dim |-> d, sizes |-> z, s |-> s] :
               k \in KS(sh), z \in SizesFor(sh[Ax(d, Len(sh))]), s \in Streams} : d \in AxesOf(sh)} : sh \in Shs}
       \cup UNION {UNION {{[m |-> "chunk", op |-> "chunk", sh |-> sh, kind |-> k, dim |-> d, n |-> n, s |-> s] :
               k \in KS(sh), n \in 1..5, s \in Streams} : d \in AxesOf(sh)} : sh \in Shs}
PadOps == {"pad", "pad_constant", "pad_reflect", "pad_replicate", "pad_edge", "pad_circular", "pad_wrap"}
ModeOf(q) == CASE q.op = "pad" -> q.mode [] q.op = "pad_constant" -> "constant" [] q.op = "pad_reflect" -> "reflect" [] q.op = "pad_replicate" -> "replicate"
               [] q.op = "pad_edge" -> "edge" [] q.op = "pad_circular" -> "circular" [] q.op = "pad_wrap" -> "wrap"
PadReqs == UNION {{[m |-> "pad", op |-> op, mode |-> md, sh |-> sh, kind |-> k, v |-> v, s |-> s] :
               op \in PadOps, md \in IF FALSE THEN {} ELSE {"constant", "reflect", "replicate", "circular"}, k \in KS(sh), v \in 1..3, s \in Streams} : sh \in Shs}
PadReqs2 == {q \in PadReqs : q.op = "pad" \/ q.mode = "constant"}
PadFor(q) == [i \in 1..Len(q.sh) |-> LET h == Hash(q.s + q.v, i, 12) IN
              CASE q.v = 1 -> <<h % 3, (h \div 3) % 3>>
                [] q.v = 2 -> <<h % 2, 1>>
                [] q.v = 3 -> IF i = Len(q.sh) THEN <<q.sh[i] + 1, 2 * q.sh[i]>> ELSE <<0, h % 2>>]
WinReqs == UNION {{[m |-> "win", op |-> "reduce_window", red |-> rd, sh |-> sh, kind |-> k, v |-> v, s |-> s] :
               rd \in {"sum", "max", "min", "mean"}, k \in KS(sh), v \in 1..6, s \in Streams} : sh \in Shs}
WinFor(q) == [i \in 1..Len(q.sh) |-> 1 + (Hash(q.s + q.v, i, 100) % Min2(3, q.sh[i]))]
StFor(q) == [i \in 1..Len(q.sh) |-> 1 + Hash(q.s + 2 * q.v, i + 9, 3)]
WPad(q) == LET w == WinFor(q) IN [i \in 1..Len(q.sh) |-> IF q.v <= 2 THEN <<0, 0>> ELSE <<Hash(q.s + q.v, i + 20, 100) % w[i], Hash(q.s + q.v, i + 30, 100) % w[i]>>]
Reqs == CASE Mode = "sel" -> SelReqs [] Mode = "find" -> HotReqs \cup FindReqs \cup CompReqs
          [] Mode = "join" -> JoinReqs \cup CutReqs [] Mode = "pad" -> PadReqs2 \cup WinReqs

\* element streams: small naturals, signed, or truth values
Elt(s, k) == CASE s % 3 = 0 -> Hash(s, k, 16) [] s % 3 = 1 -> Hash(s, k, 31) - 15 [] OTHER -> Hash(s, k, 2)
SmallElt(s, k) == IF s % 3 = 1 THEN Hash(s, k, 5) - 2 ELSE Hash(s, k, 3)
X(q) == Opnd(q.kind, q.sh, LAMBDA k : IF q.m = "scatter_add" \/ q.m = "win" THEN SmallElt(q.s, k) ELSE Elt(q.s, k))
\* m distinct positions below n, in an order of their own
DistinctIdx(n, m, s) == LET off == Hash(s, 3, n) rev == Hash(s, 5, 2) = 1 IN
    [j \in 1..m |-> LET p == (off + j - 1) % n IN IF rev THEN n - 1 - p ELSE p]
Sgn(q, i, n) == IF q.neg /\ i >= n \div 2 THEN i - n ELSE i
IdxVec(q, n, m, distinct) == [s |-> <<m>>, d |-> LET D == DistinctIdx(n, m, q.s) IN
    [j \in 1..m |-> Sgn(q, IF distinct THEN D[j] ELSE Hash(q.s + 40, j, n), n)]]
IdxT(q, ish, n) == [s |-> ish, d |-> [k \in 1..Prod(ish) |-> Sgn(q, Hash(q.s + 50, k, n), n)]]
Src(q, sh) == Opnd(PickKind(sh, q.s + Len(sh)), sh, LAMBDA k : IF q.m = "scatter_add" THEN SmallElt(q.s, k + 77) ELSE Elt(q.s, k + 77))
IOp(q, v) == Dressed(PickKind(v.s, q.s + q.n), v, 0)
Others(q) == LET a == Ax(q.dim, Len(q.sh)) n == q.sh[a] IN
    CASE q.m = "index_select" -> <<IOp(q, IdxVec(q, n, q.n, FALSE))>>
      [] q.m = "index_put" -> LET m == Min2(q.n, n) IN <<IOp(q, IdxVec(q, n, m, TRUE)), Src(q, Set1(q.sh, a, m))>>
      [] q.m = "gather" -> <<IOp(q, IdxT(q, [i \in 1..Len(q.sh) |-> IF i = a THEN q.n ELSE IF q.s % 2 = 0 THEN q.sh[i] ELSE Max2(1, q.sh[i] - 1)], n))>>
      [] OTHER -> LET ish == [i \in 1..Len(q.sh) |-> IF i = a THEN q.n ELSE IF q.s % 2 = 0 THEN q.sh[i] ELSE Max2(1, q.sh[i] - 1)] IN
                  <<IOp(q, IdxT(q, ish, n)), Src(q, ish)>>
CondN(q) == IF q.dim = 99 THEN Prod(q.sh) ELSE q.sh[Ax(q.dim, Len(q.sh))]
Piece0(q, i) == LET a == Ax(q.dim, Len(q.sh)) sh == IF q.m = "stack" \/ i = 1 THEN q.sh ELSE Set1(q.sh, a, i) IN
    Opnd(IF i = 1 THEN q.kind ELSE PickKind(sh, q.s + i), sh, LAMBDA k : Elt(q.s, k + 100 * i))
Operands(q) == CASE q.op \in {"index_select", "index_put", "gather", "scatter", "scatter_add", "scatter_max", "scatter_min"} -> <<X(q)>> \o Others(q)
                 [] q.m = "onehot" -> <<Opnd(q.kind, q.sh, LAMBDA k : Hash(q.s, k, 4))>>
                 [] q.m = "compress" -> <<X(q), Dressed(PickKind(<<CondN(q)>>, q.s), [s |-> <<CondN(q)>>, d |-> [k \in 1..CondN(q) |-> IF Hash(q.s + 5, k, 3) = 0 THEN 0 ELSE 1]], 1)>>
                 [] q.m \in {"concat", "stack"} -> [i \in 1..q.n |-> Piece0(q, i)]
                 [] OTHER -> <<X(q)>>
Tags(q, o) == CASE q.op \in {"index_select", "index_put", "gather", "scatter", "scatter_add", "scatter_max", "scatter_min"} -> [i \in 1..Len(o) |-> IF i = 2 THEN "i" ELSE "n"]
                [] q.m = "onehot" -> <<"i">> [] q.m = "compress" -> <<"n", "b">> [] OTHER -> Ns(o)
HotDt(q) == <<"f32", "i64", "bool", "u8", "f16", "f64", "bf16", "i32", "f8e4m3", "i8", "u16", "i16", "u32", "u64", "f8e5m2">>[1 + Hash(q.s, q.dim + 7 + q.n, 15)]
Results(q, o) ==
    LET t == o[1].t IN
    CASE q.m = "index_select" -> <<IndexSelect(t, q.dim, o[2].t)>>
      [] q.m = "index_put" -> <<IndexPut(t, q.dim, o[2].t, o[3].t)>>
      [] q.m = "gather" -> <<Gather(t, q.dim, o[2].t)>>
      [] q.m \in {"scatter", "scatter_add", "scatter_max", "scatter_min"} -> <<ScatterOf(q.m, t, q.dim, o[2].t, o[3].t)>>
      [] q.m = "onehot" -> <<OneHot(t, q.n, q.dim)>>
      [] q.m = "nonzero" -> <<NonZero(t)>>
      [] q.m = "unique" -> Unique(t)
      [] q.m = "compress" -> <<Compress(t, o[2].t, q.dim)>>
      [] q.m = "concat" -> <<Concat([i \in 1..q.n |-> o[i].t], q.dim)>>
      [] q.m = "stack" -> <<Stack([i \in 1..q.n |-> o[i].t], q.dim)>>
      [] q.m = "split" -> Split(t, q.sizes, q.dim)
      [] q.m = "chunk" -> Split(t, ChunkSizes(q.sh[Ax(q.dim, Len(q.sh))], q.n), q.dim)
      [] q.m = "pad" -> <<Pad(t, PadFor(q), ModeOf(q), IF q.s % 3 = 2 THEN 1 ELSE 7)>>
      [] q.m = "win" -> <<WinOf(t, WinFor(q), StFor(q), WPad(q), q.red)>>
TagR(q, r) == CASE q.m = "onehot" -> <<Tag(r[1], HotDt(q))>> [] q.m = "nonzero" -> <<Tag(r[1], "i")>>
                [] q.m = "unique" -> <<r[1], Tag(r[2], "i"), Tag(r[3], "i")>> [] OTHER -> r
Param(q) == CASE q.m = "onehot" -> [n |-> q.n, axis |-> q.dim, dt |-> HotDt(q)] [] q.m = "compress" -> [axis |-> q.dim]
              [] q.m = "split" -> [sizes |-> q.sizes, dim |-> q.dim] [] q.m = "chunk" -> [n |-> q.n, dim |-> q.dim]
              [] q.m = "pad" -> [pad |-> PadFor(q), mode |-> IF q.op = "pad" THEN ModeOf(q) ELSE "", c |-> IF q.s % 3 = 2 THEN 1 ELSE 7]
              [] q.m = "win" -> [win |-> WinFor(q), str |-> StFor(q), pad |-> WPad(q), red |-> q.red]
              [] q.m \in {"nonzero", "unique"} -> NoP [] OTHER -> [dim |-> q.dim]
AbsSum(o) == SumSeq([i \in 1..Len(o) |-> SumSeq([k \in 1..Len(o[i].t.d) |-> Abs(o[i].t.d[k])])])
Dts(q, o) == CASE q.m = "onehot" -> "f32"
               [] q.m = "scatter_add" -> IF AbsSum(<<o[1], o[3]>>) <= 8 THEN "num" ELSE "sumd"
               [] q.m = "win" -> IF q.red = "mean" THEN "float2" ELSE IF q.red \in {"max", "min"} \/ AbsSum(<<o[1]>>) <= 8 THEN "num" ELSE "sumd"
               [] q.m \in {"scatter_max", "scatter_min"} -> "num"
               [] OTHER -> "all"
Tol(q) == IF q.m = "win" /\ q.red = "mean" THEN [tol |-> 4, mag |-> 4, lowtol |-> 4, lowmag |-> 4] ELSE [tol |-> 0]
\* pieces joined again
Rejoin(case, q, o) == IF q.m \notin {"split", "chunk"} THEN case
    ELSE LET at == Len(case.leaves) + Len(case.steps) - 1 n == Len(case.steps[Len(case.steps)].outs) IN
         [case EXCEPT !.steps = Append(@, [op |-> "concat", p |-> [dim |-> q.dim], in |-> [i \in 1..n |-> at + i - 1], outs |-> <<o[1].t>>])]
Init == req \in Reqs /\ res = <<>>
Next == /\ res = <<>>
        /\ LET o == TLCEval(Operands(req)) r == TLCEval(Results(req, o))
               case == TLCEval(ProgT(o, Tags(req, o), req.op, Param(req), TagR(req, r), [dts |-> Dts(req, o)] @@ Tol(req))) IN
           /\ res' = r
           /\ Export(Rejoin(case, req, o))
        /\ UNCHANGED req
Spec == Init /\ [][Next]_vars
\* --- checked on the specification itself
Shaped == res # <<>> => \A i \in 1..Len(res) : Len(res[i].d) = Prod(res[i].s)
\* splitting then joining restores
Restores == (res # <<>> /\ req.m \in {"split", "chunk"}) => Concat(res, req.dim) = X(req).t
\* reading back what an assignment stored
PutGet == (res # <<>> /\ req.m = "index_put") => LET o == Operands(req) IN IndexSelect(res[1], req.dim, o[2].t) = o[3].t
\* unique's values at its inverse are the elements; its counts add up
UniqueInv == (res # <<>> /\ req.m = "unique") => LET t == X(req).t IN
    /\ \A k \in 1..Len(t.d) : res[1].d[res[2].d[k] + 1] = t.d[k]
    /\ SumSeq(res[3].d) = Len(t.d)
HotOne == (res # <<>> /\ req.m = "onehot") => LET a == IF req.dim < 0 THEN req.dim ELSE req.dim IN
    Red(res[1], <<a>>, FALSE, SumSeq).d = [k \in 1..Prod(req.sh) |-> 1]
=============================================================================
